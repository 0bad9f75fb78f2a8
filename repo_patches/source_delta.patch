From 2d53e94bc34c6704a983e36a4072f62a110944e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 01/58] fix: evaluate PowerLaw.prob and cdf for scalars outside
 the support

prob raised ZeroDivisionError for a float zero with a negative exponent and
returned a complex number for a negative float with a fractional exponent; cdf
was one rather than zero for values below the support whose power exceeds that
of the minimum.
---
 bilby/core/prior/analytical.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 5e7b309..a436540 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -122,10 +122,12 @@ class PowerLaw(Prior):
         =======
         float: Prior probability of val
         """
+        with np.errstate(divide='ignore', invalid='ignore'):
+            power = np.float_power(val, self.alpha)
         if self.alpha == -1:
-            return np.nan_to_num(1 / val / np.log(self.maximum / self.minimum)) * self.is_in_prior_range(val)
+            return np.nan_to_num(power / np.log(self.maximum / self.minimum)) * self.is_in_prior_range(val)
         else:
-            return np.nan_to_num(val ** self.alpha * (1 + self.alpha) /
+            return np.nan_to_num(power * (1 + self.alpha) /
                                  (self.maximum ** (1 + self.alpha) -
                                   self.minimum ** (1 + self.alpha))) * self.is_in_prior_range(val)
 
@@ -154,6 +156,7 @@ class PowerLaw(Prior):
         return ln_p + ln_in_range
 
     def cdf(self, val):
+        val = np.clip(val, self.minimum, self.maximum)
         if self.alpha == -1:
             _cdf = (np.log(val / self.minimum) /
                     np.log(self.maximum / self.minimum))
-- 
2.43.0


From d2dfc322b537d77a028f1995a485c49adc1fe43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 02/58] fix: SymmetricLogUniform.ln_prob is -inf outside the
 support

ln_prob was finite outside the prior range, where prob vanishes.
---
 bilby/core/prior/analytical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index a436540..ae8a811 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -356,7 +356,10 @@ class SymmetricLogUniform(Prior):
         float:
 
         """
-        return np.nan_to_num(- np.log(2 * np.abs(val)) - np.log(np.log(self.maximum / self.minimum)))
+        val = np.abs(val)
+        with np.errstate(divide='ignore'):
+            ln_in_range = np.log(1. * self.is_in_prior_range(val))
+            return np.nan_to_num(- np.log(2 * val) - np.log(np.log(self.maximum / self.minimum))) + ln_in_range
 
     def cdf(self, val):
         val = np.atleast_1d(val)
-- 
2.43.0


From bc83534f765c50b81161d6c0bfec66f272f3cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 03/58] fix: normalise Cosine and Sine over the requested range

prob assumed the default range, so it disagreed with the derivative of the cdf
and did not integrate to one whenever minimum or maximum was given.
---
 bilby/core/prior/analytical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index ae8a811..aec0c7d 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -418,7 +418,7 @@ class Cosine(Prior):
         =======
         float: Prior probability of val
         """
-        return np.cos(val) / 2 * self.is_in_prior_range(val)
+        return np.cos(val) / (np.sin(self.maximum) - np.sin(self.minimum)) * self.is_in_prior_range(val)
 
     def cdf(self, val):
         _cdf = np.atleast_1d((np.sin(val) - np.sin(self.minimum)) /
@@ -472,7 +472,7 @@ class Sine(Prior):
         =======
         Union[float, array_like]: Prior probability of val
         """
-        return np.sin(val) / 2 * self.is_in_prior_range(val)
+        return np.sin(val) / (np.cos(self.minimum) - np.cos(self.maximum)) * self.is_in_prior_range(val)
 
     def cdf(self, val):
         _cdf = np.atleast_1d((np.cos(val) - np.cos(self.minimum)) /
-- 
2.43.0


From 3be91673925a6243a7a19b594f903177c16e6e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:05 +0000
Subject: [PATCH 04/58] fix: PowerLaw.ln_prob at zero is -inf rather than nan

For exponents below minus one and a positive minimum the sum of an overflowing
positive term and -inf gave nan outside the support.
---
 bilby/core/prior/analytical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index aec0c7d..f18fa45 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -151,7 +151,7 @@ class PowerLaw(Prior):
 
         with np.errstate(divide='ignore', invalid='ignore'):
             ln_in_range = np.log(1. * self.is_in_prior_range(val))
-            ln_p = self.alpha * np.nan_to_num(np.log(val)) + np.log(normalising)
+            ln_p = np.nan_to_num(self.alpha * np.log(val), neginf=-np.inf) + np.log(normalising)
 
         return ln_p + ln_in_range
 
-- 
2.43.0


From de0b54143bddfec561d8506868cd69a2c27a270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:00 +0000
Subject: [PATCH 05/58] fix: recompute the rescale order after a
 ConditionalPriorDict is modified

---
 bilby/core/prior/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 3722c62..b300f48 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -701,6 +701,8 @@ class ConditionalPriorDict(PriorDict):
                     self._conditional_keys.append(key)
                     conditional_keys_unsorted.remove(key)
 
+        # the cached order in which rescale visits the keys may no longer apply
+        self._least_recently_rescaled_keys = []
         self._resolved = True
         if len(conditional_keys_unsorted) != 0:
             self._resolved = False
-- 
2.43.0


From a3d0ef3d5883c1041d4f4b1c402308afd9e3d703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 06/58] fix: check every parameter's bounds for each sample of
 a joint prior

---
 bilby/core/prior/joint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index 43c8913..85f0dcf 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -209,11 +209,9 @@ class BaseJointPriorDist(object):
             raise ValueError("Array is the wrong shape")
 
         # check sample(s) is within bounds
-        outbounds = np.ones(samp.shape[0], dtype=bool)
+        outbounds = np.zeros(samp.shape[0], dtype=bool)
         for s, bound in zip(samp.T, self.bounds.values()):
-            outbounds = (s < bound[0]) | (s > bound[1])
-            if np.any(outbounds):
-                break
+            outbounds = outbounds | (s < bound[0]) | (s > bound[1])
         return samp, outbounds
 
     def ln_prob(self, value):
-- 
2.43.0


From 0c82f6a2704b73f3b56b7539e8db97d8472653fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 07/58] fix: weight the modes in the density of a Gaussian
 mixture prior

---
 bilby/core/prior/joint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index 85f0dcf..7935192 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -674,12 +674,14 @@ class MultivariateGaussianDist(BaseJointPriorDist):
         return samps
 
     def _ln_prob(self, samp, lnprob, outbounds):
+        log_weights = np.log(np.array(self.weights) / np.sum(self.weights))
         for j in range(samp.shape[0]):
             # loop over the modes and sum the probabilities
             for i in range(self.nmodes):
                 # self.mvn[i] is a "standard" multivariate normal distribution; see add_mode()
                 z = (samp[j] - self.mus[i]) / self.sigmas[i]
-                lnprob[j] = np.logaddexp(lnprob[j], self.mvn[i].logpdf(z) - self.logprodsigmas[i])
+                lnprob[j] = np.logaddexp(
+                    lnprob[j], log_weights[i] + self.mvn[i].logpdf(z) - self.logprodsigmas[i])
 
         # set out-of-bounds values to -inf
         lnprob[outbounds] = -np.inf
-- 
2.43.0


From 7a7e35719488733427d52fc4df94ad1af02caa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 08/58] fix: Categorical.rescale never returns a value outside
 the categories

---
 bilby/core/prior/analytical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index f18fa45..0643347 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -1476,7 +1476,7 @@ class Categorical(Prior):
         =======
         Union[float, array_like]: Rescaled probability
         """
-        return np.floor(val * (1 + self.maximum))
+        return np.minimum(np.floor(val * self.ncategories), self.ncategories - 1)
 
     def prob(self, val):
         """Return the prior probability of val.
-- 
2.43.0


From d407505530690cc005205e963ea0fbdbf96b4ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:35 +0000
Subject: [PATCH 09/58] fix: keep the bounds of a joint prior when it is
 written out and read back

---
 bilby/core/prior/joint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index 7935192..9b0ac97 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -35,6 +35,8 @@ class BaseJointPriorDist(object):
         self.num_vars = len(self.names)
 
         # set the bounds for each parameter
+        if isinstance(bounds, dict):
+            bounds = [bounds[name] for name in self.names]
         if isinstance(bounds, list):
             if len(bounds) != len(self):
                 raise ValueError("Wrong number of parameter bounds")
-- 
2.43.0


From 04790ff7dffbbe4b1c4f6e4990e0ab606dfce237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:14 +0000
Subject: [PATCH 10/58] fix: evaluate the sampling prior of every posterior in
 the hyper-parameter likelihood

---
 bilby/hyper/likelihood.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bilby/hyper/likelihood.py b/bilby/hyper/likelihood.py
index c5ea8b0..13bc404 100644
--- a/bilby/hyper/likelihood.py
+++ b/bilby/hyper/likelihood.py
@@ -1,5 +1,6 @@
 
 import logging
+from copy import copy
 
 import numpy as np
 
@@ -43,6 +44,10 @@ class HyperparameterLikelihood(Likelihood):
         else:
             if not (isinstance(sampling_prior, Model) or isinstance(sampling_prior, PriorDict)):
                 sampling_prior = Model([sampling_prior])
+            if isinstance(sampling_prior, Model):
+                # the model is evaluated for a different dataset for each posterior
+                sampling_prior = copy(sampling_prior)
+                sampling_prior.cache = False
         if log_evidences is not None:
             self.evidence_factor = np.sum(log_evidences)
         else:
-- 
2.43.0


From de62047d5fc4ee41948e4759f4c0c9af8cf2f311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 11/58] fix: convert source-frame masses given with a comoving
 distance

---
 bilby/gw/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index fe1688f..740bd63 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -221,7 +221,7 @@ def convert_to_lal_binary_black_hole_parameters(parameters):
             if 'redshift' not in converted_parameters.keys():
                 converted_parameters['redshift'] =\
                     luminosity_distance_to_redshift(
-                        parameters['luminosity_distance'])
+                        converted_parameters['luminosity_distance'])
             converted_parameters[key[:-7]] = converted_parameters[key] * (
                 1 + converted_parameters['redshift'])
 
-- 
2.43.0


From abee3352ab3ccd6c563ae3a2f7de374db5d54b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 12/58] fix: leave samples with only mass_2 unchanged in
 generate_component_masses

---
 bilby/gw/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 740bd63..14003ba 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -1920,7 +1920,7 @@ def generate_component_masses(sample, require_add=False, source=False):
                     chirp_mass=output_sample[chirp_mass_key])
             )
         else:
-            check_and_return_quietly(require_add, sample)
+            return check_and_return_quietly(require_add, sample)
 
         output_sample[mass_1_key] = 1 / output_sample["mass_ratio"] * (
             output_sample[mass_2_key]
-- 
2.43.0


From a1812e02b0afd5f8e9afadd7e0efe6dcc607eb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:56 +0000
Subject: [PATCH 13/58] fix: mass ratio from mass_2 and chirp mass for mass
 ratios below one third

---
 bilby/gw/conversion.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 14003ba..c7e5e5f 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -1111,10 +1111,15 @@ def mass_2_and_chirp_mass_to_mass_ratio(mass_2, chirp_mass):
     mass_ratio: float
         Mass ratio of the binary
     """
+    temp = (chirp_mass / mass_2) ** 5
     # Passing mass_2, the expression from the function above
     # returns 1/q (because chirp mass is invariant under
-    # mass_1 <-> mass_2)
-    return 1 / mass_1_and_chirp_mass_to_mass_ratio(mass_2, chirp_mass)
+    # mass_1 <-> mass_2), it is valid for q >= 1/3
+    limit = mass_2 * (27 / 4) ** (1 / 5) * (1 - 1e-12)
+    inverse = mass_1_and_chirp_mass_to_mass_ratio(mass_2, np.minimum(chirp_mass, limit))
+    # otherwise the cubic has three real solutions, of which 1/q is the positive one
+    angle = np.arccos((27 / 4 / np.maximum(temp, 27 / 4)) ** 0.5) / 3
+    return 1 / np.where(temp < 27 / 4, inverse, 2 * (temp / 3) ** 0.5 * np.cos(angle))
 
 
 def lambda_1_lambda_2_to_lambda_tilde(lambda_1, lambda_2, mass_1, mass_2):
-- 
2.43.0


From 641d4f98e620435db7022f63ff07cff61e4c620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:56 +0000
Subject: [PATCH 14/58] fix: convert vanishing spins given by their components
 to a vanishing spin

---
 bilby/gw/conversion.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index c7e5e5f..9aa5cb4 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -236,10 +236,19 @@ def convert_to_lal_binary_black_hole_parameters(parameters):
                     converted_parameters[f"chi_{idx}"] ** 2
                     + converted_parameters[f"chi_{idx}_in_plane"] ** 2
                 ) ** 0.5
-                converted_parameters[f"cos_tilt_{idx}"] = (
-                    converted_parameters[f"chi_{idx}"]
-                    / converted_parameters[f"a_{idx}"]
-                )
+                with np.errstate(invalid="raise"):
+                    try:
+                        converted_parameters[f"cos_tilt_{idx}"] = (
+                            converted_parameters[f"chi_{idx}"]
+                            / converted_parameters[f"a_{idx}"]
+                        )
+                    except (FloatingPointError, ZeroDivisionError):
+                        logger.debug(
+                            "Error in conversion to spherical spin tilt. "
+                            "This is often due to the spin parameters being zero. "
+                            f"Setting cos_tilt_{idx} = 1."
+                        )
+                        converted_parameters[f"cos_tilt_{idx}"] = 1.0
             elif "a_{}".format(idx) not in original_keys:
                 converted_parameters['a_{}'.format(idx)] = abs(
                     converted_parameters[key])
-- 
2.43.0


From ad1b809a808ab6944ca031ac1291cad1af7a3b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:45 +0000
Subject: [PATCH 15/58] fix: resume an interrupted reweighting at the first
 sample that is missing

---
 bilby/core/result.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index c5d27bf..a15e24d 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -191,14 +191,15 @@ def get_weights_for_reweighting(
         old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array = \
             np.genfromtxt(resume_file)
 
-        starting_index = np.argmin(np.abs(old_log_likelihood_array))
+        # the new priors are evaluated last, those still missing are nan
+        starting_index = np.argmax(np.append(np.isnan(new_log_prior_array), True))
         logger.info(f'Checkpoint resuming from {starting_index}.')
 
     else:
         old_log_likelihood_array = np.zeros(nposterior)
         old_log_prior_array = np.zeros(nposterior)
         new_log_likelihood_array = np.zeros(nposterior)
-        new_log_prior_array = np.zeros(nposterior)
+        new_log_prior_array = np.full(nposterior, np.nan)
 
         starting_index = 0
 
@@ -251,8 +252,7 @@ def get_weights_for_reweighting(
             new_log_prior_array[ii] = old_log_prior_array[ii]
 
         if (ii % (n_checkpoint) == 0) and (resume_file is not None):
-            checkpointed_index = np.argmin(np.abs(old_log_likelihood_array))
-            logger.info(f'Checkpointing with {checkpointed_index} samples')
+            logger.info(f'Checkpointing with {ii + 1} samples')
             np.savetxt(
                 resume_file,
                 [old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array])
-- 
2.43.0


From 2de8db5538dc53879e39cd7ccbaae5b2bf4af996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 16/58] fix: leave the result passed to reweight unchanged

---
 bilby/core/result.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index a15e24d..2cdefd6 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -338,9 +338,12 @@ def reweight(result, label=None, new_likelihood=None, new_prior=None,
     from scipy.special import logsumexp
 
     result = copy(result)
+    result.meta_data = copy(result.meta_data)
 
     if use_nested_samples:
-        result.posterior = result.nested_samples
+        result.posterior = result.nested_samples.copy()
+    else:
+        result.posterior = result.posterior.copy()
 
     nposterior = len(result.posterior)
     logger.info("Reweighting posterior with {} samples".format(nposterior))
@@ -371,6 +374,7 @@ def reweight(result, label=None, new_likelihood=None, new_prior=None,
         result.log_evidence += logsumexp(ln_weights) - np.log(nposterior)
 
     if new_prior is not None:
+        result.priors = copy(result.priors)
         for key, prior in new_prior.items():
             result.priors[key] = prior
 
-- 
2.43.0


From 49eb43cd8244acfa105296e464ece072234556b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:27 +0000
Subject: [PATCH 17/58] fix: copy a PriorDict with its conversion function

---
 bilby/core/prior/dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index b300f48..1ed487d 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -645,7 +645,10 @@ class PriorDict(dict):
         We have to overwrite the copy method as it fails due to the presence of
         defaults.
         """
-        return self.__class__(dictionary=dict(self))
+        new = self.__class__(dictionary=dict(self))
+        if self.conversion_function != self.default_conversion_function:
+            new.conversion_function = self.conversion_function
+        return new
 
 
 class PriorDictException(Exception):
-- 
2.43.0


From 36bb2373ab511efb53cd64aa99729b5a585a7213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:42 +0000
Subject: [PATCH 18/58] fix: report results whose priors have different keys as
 inconsistent

---
 bilby/core/result.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 2cdefd6..72232a6 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1973,10 +1973,11 @@ class ResultList(list):
 
     def check_consistent_priors(self):
         for res in self:
-            for p in self[0].priors.keys():
-                if not self[0].priors[p] == res.priors[p] or len(self[0].priors) != len(res.priors):
-                    msg = "Inconsistent priors between results"
-                    self._error_or_warning_consistency(msg)
+            if set(self[0].priors) != set(res.priors) or any(
+                self[0].priors[p] != res.priors[p] for p in self[0].priors
+            ):
+                msg = "Inconsistent priors between results"
+                self._error_or_warning_consistency(msg)
 
     def check_consistent_parameters(self):
         if not np.all([set(self[0].search_parameter_keys) == set(res.search_parameter_keys) for res in self]):
-- 
2.43.0


From fae73aa2896cebd9516516fecff0a1a4ef4f341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:08 +0000
Subject: [PATCH 19/58] fix: read None entries of lists back from HDF5 files

---
 bilby/core/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index cc8329e..6b25dd4 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -236,7 +236,7 @@ def decode_from_hdf5(item):
         if item.size == 0:
             output = item
         elif "|S" in str(item.dtype) or isinstance(item[0], bytes):
-            output = [it.decode() for it in item]
+            output = [decode_from_hdf5(it) for it in item]
         else:
             output = item
     elif isinstance(item, np.bool_):
-- 
2.43.0


From 1014f3b763277ff668149e8364e70a6f4c50eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:21 +0000
Subject: [PATCH 20/58] fix: save each callable sampler argument by its own
 name, leaving the result unchanged

---
 bilby/core/result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 72232a6..eb4eea1 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -795,9 +795,10 @@ class Result(object):
 
         # Convert callable sampler_kwargs to strings
         if dictionary.get('sampler_kwargs', None) is not None:
+            dictionary['sampler_kwargs'] = dictionary['sampler_kwargs'].copy()
             for key in dictionary['sampler_kwargs']:
                 if hasattr(dictionary['sampler_kwargs'][key], '__call__'):
-                    dictionary['sampler_kwargs'][key] = str(dictionary['sampler_kwargs'])
+                    dictionary['sampler_kwargs'][key] = str(dictionary['sampler_kwargs'][key])
 
         try:
             # convert priors to JSON dictionary for both JSON and hdf5 files
-- 
2.43.0


From 6a7bd1e54c9bab09ab52151160aa42d75510fa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:42 +0000
Subject: [PATCH 21/58] fix: weights under new priors follow the order of the
 posterior

---
 bilby/core/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index eb4eea1..6f0fd3e 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1684,13 +1684,13 @@ class Result(object):
                                  key in old_prior and key in prior_names}
         else:
             shared_parameters = {key: self.posterior[key] for key in new_prior if key in old_prior}
-        parameters = [{key: self.posterior[key][i] for key in shared_parameters.keys()}
+        parameters = [{key: self.posterior[key].iloc[i] for key in shared_parameters.keys()}
                       for i in range(len(self.posterior))]
 
         for i in range(len(self.posterior)):
             weight = 1
             for prior_key in shared_parameters.keys():
-                val = self.posterior[prior_key][i]
+                val = self.posterior[prior_key].iloc[i]
                 weight *= new_prior.evaluate_constraints(parameters[i])
                 weight *= new_prior[prior_key].prob(val) / old_prior[prior_key].prob(val)
 
-- 
2.43.0


From c6b73fa43b13a5ed975b965378f63ecee4204a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 22/58] fix: rebuild the density estimate when the posterior of
 a result changes

---
 bilby/core/result.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 6f0fd3e..06480b1 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -707,6 +707,7 @@ class Result(object):
     @posterior.setter
     def posterior(self, posterior):
         self._posterior = posterior
+        self._kde = None
 
     @property
     def log_10_bayes_factor(self):
-- 
2.43.0


From 9e13cd68590c87d4943c5f2b15394c7da10f10dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 23/58] fix: keep the slab-and-spike prior consistent when its
 spike is changed

---
 bilby/core/prior/slabspike.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/slabspike.py b/bilby/core/prior/slabspike.py
index 92664b1..eb27b0c 100644
--- a/bilby/core/prior/slabspike.py
+++ b/bilby/core/prior/slabspike.py
@@ -36,10 +36,6 @@ class SlabSpikePrior(Prior):
                          check_range_nonzero=self.slab.check_range_nonzero, boundary=self.slab.boundary)
         self.spike_location = spike_location
         self.spike_height = spike_height
-        try:
-            self.inverse_cdf_below_spike = self._find_inverse_cdf_fraction_before_spike()
-        except Exception as e:
-            logger.warning("Disregard the following warning when running tests:\n {}".format(e))
 
     @property
     def spike_location(self):
@@ -69,6 +65,11 @@ class SlabSpikePrior(Prior):
         """ Relative prior weight of the slab. """
         return 1 - self.spike_height
 
+    @property
+    def inverse_cdf_below_spike(self):
+        """ Value of the cdf just below the spike """
+        return self._find_inverse_cdf_fraction_before_spike()
+
     def _find_inverse_cdf_fraction_before_spike(self):
         return float(self.slab.cdf(self.spike_location)) * self.slab_fraction
 
-- 
2.43.0


From 1f5b28e314d8fb6f28e0ff727237329fe754d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 24/58] fix: draw the binary-Love scatter for a single sample
 too

---
 bilby/gw/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 9aa5cb4..c8d7275 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -1635,7 +1635,7 @@ def binary_love_lambda_symmetric_to_lambda_1_lambda_2_automatic_marginalisation(
     """
     from ..core.utils.random import rng
 
-    binary_love_uniform = rng.uniform(0, 1, len(lambda_symmetric))
+    binary_love_uniform = rng.uniform(0, 1, np.shape(lambda_symmetric) or None)
 
     lambda_1, lambda_2 = binary_love_lambda_symmetric_to_lambda_1_lambda_2_manual_marginalisation(
         binary_love_uniform, lambda_symmetric, mass_ratio)
-- 
2.43.0


From 9b7b1739f62d63b57308e546e6208924552c9d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:17 +0000
Subject: [PATCH 25/58] fix: give the Fourier frequencies of an odd number of
 samples and round the number of samples

---
 bilby/core/utils/series.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/bilby/core/utils/series.py b/bilby/core/utils/series.py
index ccd5937..780db7b 100644
--- a/bilby/core/utils/series.py
+++ b/bilby/core/utils/series.py
@@ -98,7 +98,7 @@ def create_time_series(sampling_frequency, duration, starting_time=0.):
 
     """
     _check_legal_sampling_frequency_and_duration(sampling_frequency, duration)
-    number_of_samples = int(duration * sampling_frequency)
+    number_of_samples = int(np.round(duration * sampling_frequency))
     return np.linspace(start=starting_time,
                        stop=duration + starting_time - 1 / sampling_frequency,
                        num=number_of_samples)
@@ -119,11 +119,18 @@ def create_frequency_series(sampling_frequency, duration):
     """
     _check_legal_sampling_frequency_and_duration(sampling_frequency, duration)
     number_of_samples = int(np.round(duration * sampling_frequency))
-    number_of_frequencies = int(np.round(number_of_samples / 2) + 1)
+    return _frequencies_of_fourier_transform(sampling_frequency, number_of_samples)
+
 
-    return np.linspace(start=0,
-                       stop=sampling_frequency / 2,
-                       num=number_of_frequencies)
+def _frequencies_of_fourier_transform(sampling_frequency, number_of_samples):
+    """ Frequencies of the bins of the real Fourier transform of a number of samples
+
+    The last bin is at the Nyquist frequency for an even, half a bin below for an odd number of samples.
+    """
+    stop = sampling_frequency / 2
+    if number_of_samples % 2 == 1:
+        stop *= 1 - 1 / number_of_samples
+    return np.linspace(start=0, stop=stop, num=number_of_samples // 2 + 1)
 
 
 def _check_legal_sampling_frequency_and_duration(sampling_frequency, duration):
@@ -209,8 +216,8 @@ def nfft(time_domain_strain, sampling_frequency):
     frequency_domain_strain = np.fft.rfft(time_domain_strain)
     frequency_domain_strain /= sampling_frequency
 
-    frequency_array = np.linspace(
-        0, sampling_frequency / 2, len(frequency_domain_strain))
+    frequency_array = _frequencies_of_fourier_transform(
+        sampling_frequency, len(time_domain_strain))
 
     return frequency_domain_strain, frequency_array
 
-- 
2.43.0


From 5f71d067b984411278e4c1cd51ac88d3880300d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:17 +0000
Subject: [PATCH 26/58] fix: keep the time array consistent when the frequency
 array is set, and the other way round

---
 bilby/core/series.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/core/series.py b/bilby/core/series.py
index ba1d0ff..fbb9a57 100644
--- a/bilby/core/series.py
+++ b/bilby/core/series.py
@@ -54,6 +54,7 @@ class CoupledTimeAndFrequencySeries(object):
         self._sampling_frequency, self._duration = \
             utils.get_sampling_frequency_and_duration_from_frequency_array(frequency_array)
         self._frequency_array_updated = True
+        self._time_array_updated = False
 
     @property
     def time_array(self):
@@ -85,6 +86,7 @@ class CoupledTimeAndFrequencySeries(object):
             utils.get_sampling_frequency_and_duration_from_time_array(time_array)
         self._start_time = time_array[0]
         self._time_array_updated = True
+        self._frequency_array_updated = False
 
     @property
     def duration(self):
-- 
2.43.0


From 06ccacede4862cddb01983e9e218bf1734f35688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:29 +0000
Subject: [PATCH 27/58] fix: keep the maximum frequency as set when the data
 only reach a lower Nyquist frequency

---
 bilby/gw/detector/strain_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 06e0c01..7cb45f2 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -102,7 +102,7 @@ class InterferometerStrainData(object):
         """ Force the maximum frequency be less than the Nyquist frequency """
         if self.sampling_frequency is not None:
             if 2 * self._maximum_frequency > self.sampling_frequency:
-                self._maximum_frequency = self.sampling_frequency / 2.
+                return self.sampling_frequency / 2.
         return self._maximum_frequency
 
     @maximum_frequency.setter
-- 
2.43.0


From 5d7d6461f30326e38ce60a4e0cd1aca62478aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:29 +0000
Subject: [PATCH 28/58] fix: recognise an analysis segment inside the data used
 for the noise spectrum

---
 bilby/gw/detector/strain_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 7cb45f2..94bc75f 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -395,7 +395,7 @@ class InterferometerStrainData(object):
 
         if analysis_segment_start_time is not None:
             analysis_segment_end_time = analysis_segment_start_time + fft_length
-            inside = (analysis_segment_start_time > self.time_array[0] +
+            inside = (analysis_segment_start_time > self.time_array[0] and
                       analysis_segment_end_time < self.time_array[-1])
             if inside:
                 logger.info("Removing analysis segment data from the PSD data")
-- 
2.43.0


From 35482097b3bbd8df23ac1a5dbfa371d042ca391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:29 +0000
Subject: [PATCH 29/58] fix: low-pass filter the frequency domain strain too

---
 bilby/gw/detector/strain_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 94bc75f..441c186 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -358,6 +358,7 @@ class InterferometerStrainData(object):
         strain = TimeSeries(self.time_domain_strain, sample_rate=self.sampling_frequency)
         strain = strain.filter(bp, filtfilt=True)
         self._time_domain_strain = strain.value
+        self._frequency_domain_strain = None
 
     def create_power_spectral_density(
             self, fft_length, overlap=0, name='unknown', outdir=None,
-- 
2.43.0


From 63a1575c8d073474aaeb216aed4532448cc72b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:29 +0000
Subject: [PATCH 30/58] fix: forget what was derived from earlier strain data,
 the window normalisation included, when new data are set

---
 bilby/gw/detector/strain_data.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 441c186..dea1253 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -159,6 +159,24 @@ class InterferometerStrainData(object):
         self._frequency_mask = mask
         self._frequency_mask_updated = True
 
+    def _reset_for_new_data(self):
+        """ Forget everything derived from previously set data """
+        self._time_domain_strain = None
+        self._frequency_domain_strain = None
+        self._frequency_mask_updated = False
+        self.window_factor = 1
+
+    @property
+    def window_factor(self):
+        """ The mean of the squared window applied to the time domain strain, one for frequency domain data """
+        if self._window_factor is None:
+            self.time_domain_window()
+        return self._window_factor
+
+    @window_factor.setter
+    def window_factor(self, window_factor):
+        self._window_factor = window_factor
+
     @property
     def alpha(self):
         return 2 * self.roll_off / self.duration
@@ -232,6 +250,8 @@ class InterferometerStrainData(object):
     def frequency_domain_strain(self, frequency_domain_strain):
         if not len(self.frequency_array) == len(frequency_domain_strain):
             raise ValueError("The frequency_array and the set strain have different lengths")
+        if self._window_factor is None:
+            self.time_domain_window()
         self._frequency_domain_strain = frequency_domain_strain
         self._time_domain_strain = None
 
@@ -359,6 +379,7 @@ class InterferometerStrainData(object):
         strain = strain.filter(bp, filtfilt=True)
         self._time_domain_strain = strain.value
         self._frequency_domain_strain = None
+        self._window_factor = None
 
     def create_power_spectral_density(
             self, fft_length, overlap=0, name='unknown', outdir=None,
@@ -494,8 +515,9 @@ class InterferometerStrainData(object):
 
         logger.debug('Setting data using provided time_domain_strain')
         if np.shape(time_domain_strain) == np.shape(self.time_array):
+            self._reset_for_new_data()
             self._time_domain_strain = time_domain_strain
-            self._frequency_domain_strain = None
+            self._window_factor = None
         else:
             raise ValueError("Data times do not match time array")
 
@@ -520,8 +542,9 @@ class InterferometerStrainData(object):
             CoupledTimeAndFrequencySeries(duration=time_series.duration.value,
                                           sampling_frequency=time_series.sample_rate.value,
                                           start_time=time_series.epoch.value)
+        self._reset_for_new_data()
         self._time_domain_strain = time_series.value
-        self._frequency_domain_strain = None
+        self._window_factor = None
         self._channel = time_series.channel
 
     @property
@@ -602,8 +625,8 @@ class InterferometerStrainData(object):
 
         logger.debug('Setting data using provided frequency_domain_strain')
         if np.shape(frequency_domain_strain) == np.shape(self.frequency_array):
+            self._reset_for_new_data()
             self._frequency_domain_strain = frequency_domain_strain
-            self.window_factor = 1
         else:
             raise ValueError("Data frequencies do not match frequency_array")
 
@@ -636,6 +659,7 @@ class InterferometerStrainData(object):
                 self.sampling_frequency, self.duration)
 
         if np.array_equal(frequency_array, self.frequency_array):
+            self._reset_for_new_data()
             self._frequency_domain_strain = frequency_domain_strain
         else:
             raise ValueError("Data frequencies do not match frequency_array")
@@ -658,6 +682,7 @@ class InterferometerStrainData(object):
                                                                     sampling_frequency=sampling_frequency,
                                                                     start_time=start_time)
         logger.debug('Setting zero noise data')
+        self._reset_for_new_data()
         self._frequency_domain_strain = np.zeros_like(self.frequency_array,
                                                       dtype=complex)
 
-- 
2.43.0


From cab70f0b0e8458c0a4803bf87a953d3a10787f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 31/58] fix: assign the marginalised times to the entries of
 the Fourier transform they belong to

---
 bilby/gw/likelihood/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index d04b28d..5cafa5a 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -992,7 +992,7 @@ class GravitationalWaveTransient(Likelihood):
             self.interferometers.start_time + np.linspace(
                 0, self.interferometers.duration,
                 int(self.interferometers.duration / 2 *
-                    self.waveform_generator.sampling_frequency + 1))[1:]
+                    self.waveform_generator.sampling_frequency + 1))[:-1]
         self.time_prior_array = \
             self.priors['geocent_time'].prob(self._times) * self._delta_tc
 
-- 
2.43.0


From dc7249f1d8f5f26d94aed00f846be252f275168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 32/58] fix: normalise the inner product used to reconstruct
 the marginalised time

---
 bilby/gw/likelihood/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index 5cafa5a..2c3d589 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -592,6 +592,7 @@ class GravitationalWaveTransient(Likelihood):
         times = times[in_prior]
 
         n_time_steps = int(self.waveform_generator.duration * 16384)
+        normalization = 4 / self.waveform_generator.duration
         d_inner_h = np.zeros(len(times), dtype=complex)
         psd = np.ones(n_time_steps)
         signal_long = np.zeros(n_time_steps, dtype=complex)
@@ -607,7 +608,7 @@ class GravitationalWaveTransient(Likelihood):
             signal_long[:ifo_length] = signal
             data[:ifo_length] = np.conj(ifo.frequency_domain_strain)
             psd[:ifo_length][mask] = ifo.power_spectral_density_array[mask]
-            d_inner_h += np.fft.fft(signal_long * data / psd)[in_prior]
+            d_inner_h += normalization * np.fft.fft(signal_long * data / psd)[in_prior]
             h_inner_h += ifo.optimal_snr_squared(signal=signal).real
 
         if self.distance_marginalization:
-- 
2.43.0


From 92539ec9817f18867340d5cfaec7a66eb7065639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 33/58] fix: apply the chosen calibration when reconstructing
 the marginalised time

---
 bilby/gw/likelihood/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index 2c3d589..b653c6b 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -605,6 +605,8 @@ class GravitationalWaveTransient(Likelihood):
                 signal_polarizations=signal_polarizations,
                 interferometer=ifo,
             )
+            if 'recalib_index' in self.parameters:
+                signal[mask] *= self.calibration_draws[ifo.name][int(self.parameters['recalib_index'])]
             signal_long[:ifo_length] = signal
             data[:ifo_length] = np.conj(ifo.frequency_domain_strain)
             psd[:ifo_length][mask] = ifo.power_spectral_density_array[mask]
-- 
2.43.0


From e9add03e702670378e35efb3f755070b08d2a2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 34/58] fix: marginalise over calibration, time and distance at
 once

---
 bilby/gw/likelihood/base.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index b653c6b..c192ae3 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -759,11 +759,7 @@ class GravitationalWaveTransient(Likelihood):
 
     def phase_marginalized_likelihood(self, d_inner_h, h_inner_h):
         d_inner_h = ln_i0(abs(d_inner_h))
-
-        if self.calibration_marginalization and self.time_marginalization:
-            return d_inner_h - h_inner_h[:, np.newaxis] / 2
-        else:
-            return d_inner_h - h_inner_h / 2
+        return d_inner_h - h_inner_h / 2
 
     def time_marginalized_likelihood(self, d_inner_h_tc_array, h_inner_h):
         times = self._times
@@ -776,6 +772,7 @@ class GravitationalWaveTransient(Likelihood):
         time_prior_array = self.priors['geocent_time'].prob(times) * self._delta_tc
         if self.calibration_marginalization:
             d_inner_h_tc_array = d_inner_h_tc_array[:, time_mask]
+            h_inner_h = h_inner_h[:, np.newaxis]
         else:
             d_inner_h_tc_array = d_inner_h_tc_array[time_mask]
 
@@ -786,8 +783,6 @@ class GravitationalWaveTransient(Likelihood):
             log_l_tc_array = self.phase_marginalized_likelihood(
                 d_inner_h=d_inner_h_tc_array,
                 h_inner_h=h_inner_h)
-        elif self.calibration_marginalization:
-            log_l_tc_array = np.real(d_inner_h_tc_array) - h_inner_h[:, np.newaxis] / 2
         else:
             log_l_tc_array = np.real(d_inner_h_tc_array) - h_inner_h / 2
         return logsumexp(log_l_tc_array, b=time_prior_array, axis=-1)
-- 
2.43.0


From f1a859151a8d788e616576609a06b8fe52c6cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 35/58] fix: include the time jitter when reconstructing the
 marginalised calibration

---
 bilby/gw/likelihood/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index c192ae3..4931a50 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -792,6 +792,8 @@ class GravitationalWaveTransient(Likelihood):
         if signal_polarizations is None:
             signal_polarizations = \
                 self.waveform_generator.frequency_domain_strain(self.parameters)
+        if self.time_marginalization and self.jitter_time:
+            self.parameters['geocent_time'] += self.parameters['time_jitter']
 
         total_snrs = self._CalculatedSNRs()
 
@@ -802,6 +804,9 @@ class GravitationalWaveTransient(Likelihood):
 
             total_snrs += per_detector_snr
 
+        if self.time_marginalization and self.jitter_time:
+            self.parameters['geocent_time'] -= self.parameters['time_jitter']
+
         if self.time_marginalization:
             log_l_cal_array = self.time_marginalized_likelihood(
                 d_inner_h_tc_array=total_snrs.d_inner_h_array,
-- 
2.43.0


From f320f415ab4e1ca3338b52edf9ceeff05c647170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 36/58] fix: only use a given distance marginalisation table if
 it matches

---
 bilby/gw/likelihood/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index 4931a50..039570b 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -887,7 +887,8 @@ class GravitationalWaveTransient(Likelihood):
             lookup_table = self.load_lookup_table(
                 self.cached_lookup_table_filename)
         if isinstance(lookup_table, dict):
-            if self._test_cached_lookup_table(lookup_table):
+            match, _ = self._test_cached_lookup_table(lookup_table)
+            if match:
                 self._dist_margd_loglikelihood_array = lookup_table[
                     'lookup_table']
             else:
-- 
2.43.0


From ef32341bd6e522476f188641d2b25ff945415d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:05 +0000
Subject: [PATCH 37/58] fix: use the edges of the frequency bins in the summary
 data of relative binning, also for the last bin

---
 bilby/gw/likelihood/relative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/likelihood/relative.py b/bilby/gw/likelihood/relative.py
index 2345b25..8bd16ef 100644
--- a/bilby/gw/likelihood/relative.py
+++ b/bilby/gw/likelihood/relative.py
@@ -330,8 +330,8 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
             for i in range(self.number_of_bins):
                 start_idx = masked_bin_inds[i]
                 end_idx = masked_bin_inds[i + 1]
-                start = masked_frequency_array[start_idx]
-                stop = masked_frequency_array[end_idx]
+                start = self.bin_freqs[i]
+                stop = self.bin_freqs[i + 1]
                 idxs = slice(start_idx, end_idx)
 
                 strain = masked_strain[idxs]
-- 
2.43.0


From 604aaf268ac1f24b7ecfda8f839c633680df2af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:05 +0000
Subject: [PATCH 38/58] fix: relative binning for detectors with different
 frequency bands

---
 bilby/gw/likelihood/relative.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/bilby/gw/likelihood/relative.py b/bilby/gw/likelihood/relative.py
index 8bd16ef..a8304f9 100644
--- a/bilby/gw/likelihood/relative.py
+++ b/bilby/gw/likelihood/relative.py
@@ -227,15 +227,16 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
         self.bin_widths = self.bin_freqs[1:] - self.bin_freqs[:-1]
         self.bin_centers = (self.bin_freqs[1:] + self.bin_freqs[:-1]) / 2
         for interferometer in self.interferometers:
-            name = interferometer.name
-            self.per_detector_fiducial_waveform_points[name] = (
-                self.per_detector_fiducial_waveforms[name][self.bin_inds]
-            )
+            # the bins can extend outside the band of an individual interferometer
+            self.per_detector_fiducial_waveform_points[interferometer.name] = interferometer.get_detector_response(
+                {mode: signal[self.bin_inds] for mode, signal in self.fiducial_polarizations.items()},
+                self.fiducial_response_parameters, frequencies=self.bin_freqs)
 
     def set_fiducial_waveforms(self, parameters):
         parameters = parameters.copy()
         parameters["fiducial"] = 1
         parameters.update(self.get_sky_frame_parameters(parameters=parameters))
+        self.fiducial_response_parameters = parameters
         self.fiducial_polarizations = self.waveform_generator.frequency_domain_strain(
             parameters)
 
@@ -313,13 +314,10 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
         for interferometer in self.interferometers:
             mask = interferometer.frequency_mask
             masked_frequency_array = interferometer.frequency_array[mask]
-            masked_bin_inds = []
-            for edge in self.bin_freqs:
-                index = np.where(masked_frequency_array == edge)[0][0]
-                masked_bin_inds.append(index)
+            masked_bin_inds = np.searchsorted(masked_frequency_array, self.bin_freqs)
             # For the last bin, make sure to include
             # the last point in the frequency array
-            masked_bin_inds[-1] += 1
+            masked_bin_inds[-1] = np.searchsorted(masked_frequency_array, self.bin_freqs[-1], side="right")
 
             masked_strain = interferometer.frequency_domain_strain[mask]
             masked_h0 = self.per_detector_fiducial_waveforms[interferometer.name][mask]
-- 
2.43.0


From 905afdbe7e61b3e5981fc23a6a1b62d8379d1f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:05 +0000
Subject: [PATCH 39/58] fix: report a fiducial waveform that cannot be computed

---
 bilby/gw/likelihood/relative.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bilby/gw/likelihood/relative.py b/bilby/gw/likelihood/relative.py
index a8304f9..4453779 100644
--- a/bilby/gw/likelihood/relative.py
+++ b/bilby/gw/likelihood/relative.py
@@ -239,6 +239,8 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
         self.fiducial_response_parameters = parameters
         self.fiducial_polarizations = self.waveform_generator.frequency_domain_strain(
             parameters)
+        if self.fiducial_polarizations is None:
+            raise ValueError(f"Cannot compute fiducial waveforms for {parameters}")
 
         maximum_nonzero_index = np.where(self.fiducial_polarizations["plus"] != 0j)[0][-1]
         logger.debug(f"Maximum Nonzero Index is {maximum_nonzero_index}")
@@ -246,9 +248,6 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
         logger.debug(f"Maximum Nonzero Frequency is {maximum_nonzero_frequency}")
         self.maximum_frequency = maximum_nonzero_frequency
 
-        if self.fiducial_polarizations is None:
-            raise ValueError(f"Cannot compute fiducial waveforms for {parameters}")
-
         for interferometer in self.interferometers:
             logger.debug(f"Maximum Frequency is {interferometer.maximum_frequency}")
             wf = interferometer.get_detector_response(self.fiducial_polarizations, parameters)
-- 
2.43.0


From 380b792ff422a384756864d3fe85d2a6f2a63326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:47 +0000
Subject: [PATCH 40/58] fix: read the calibration parameters of the same draws,
 and accept precomputed curves without parameters or index

---
 bilby/gw/detector/calibration.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bilby/gw/detector/calibration.py b/bilby/gw/detector/calibration.py
index 51f776c..cfb55f8 100644
--- a/bilby/gw/detector/calibration.py
+++ b/bilby/gw/detector/calibration.py
@@ -61,6 +61,7 @@ def read_calibration_file(filename, frequency_array, number_of_response_curves,
 
     try:
         parameter_draws = pd.read_hdf(filename, key="CalParams")
+        parameter_draws = parameter_draws.iloc[starting_index:number_of_response_curves + starting_index]
     except KeyError:
         parameter_draws = None
 
@@ -301,12 +302,12 @@ class Precomputed(Recalibrate):
         super(Precomputed, self).__init__(prefix=f"recalib_index_{self.label}")
 
     def get_calibration_factor(self, frequency_array, **params):
-        idx = int(params.get(self.prefix, None))
+        idx = params.get(self.prefix, None)
         if idx is None:
             raise KeyError(f"Calibration index for {self.label} not found.")
         if not np.array_equal(frequency_array, self.frequency_array):
             raise ValueError("Frequency grid passed to calibrator doesn't match.")
-        return self.curves[idx]
+        return self.curves[int(idx)]
 
     @classmethod
     def constant_uncertainty_spline(
@@ -411,7 +412,10 @@ def build_calibration_lookup(
             model = interferometer.calibration_model
             idxs = np.arange(number_of_response_curves, dtype=int) + starting_index
             draws[name] = model.curves[idxs]
-            parameters[name] = pd.DataFrame(model.parameters.iloc[idxs])
+            if model.parameters is not None:
+                parameters[name] = pd.DataFrame(model.parameters.iloc[idxs])
+            else:
+                parameters[name] = pd.DataFrame(index=idxs)
             parameters[name][model.prefix] = idxs
         else:
             if priors is None:
-- 
2.43.0


From 0f15be24e7eaa8e1f38dbfe6444aa5896f090465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:48 +0000
Subject: [PATCH 41/58] fix: recompute waveforms when the sampling times or
 frequencies change, and transform arrays and missing waveforms between
 domains

---
 bilby/gw/likelihood/base.py    |  4 ++--
 bilby/gw/waveform_generator.py | 13 +++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index 039570b..a8cb25f 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -656,8 +656,8 @@ class GravitationalWaveTransient(Likelihood):
         """
         self.parameters.update(self.get_sky_frame_parameters())
         if signal_polarizations is None:
-            signal_polarizations = \
-                self.waveform_generator.frequency_domain_strain(self.parameters)
+            signal_polarizations = copy.deepcopy(
+                self.waveform_generator.frequency_domain_strain(self.parameters))
 
         d_inner_h, h_inner_h = self._calculate_inner_products(signal_polarizations)
 
diff --git a/bilby/gw/waveform_generator.py b/bilby/gw/waveform_generator.py
index f85e42a..4929b9c 100644
--- a/bilby/gw/waveform_generator.py
+++ b/bilby/gw/waveform_generator.py
@@ -169,8 +169,10 @@ class WaveformGenerator(object):
                           transformed_model_data_points, parameters):
         if parameters is not None:
             self.parameters = parameters
+        data_points = model_data_points if model is not None else transformed_model_data_points
         if self.parameters == self._cache['parameters'] and self._cache['model'] == model and \
-                self._cache['transformed_model'] == transformed_model:
+                self._cache['transformed_model'] == transformed_model and \
+                np.array_equal(self._cache['data_points'], data_points):
             return self._cache['waveform']
         if model is not None:
             model_strain = self._strain_from_model(model_data_points, model)
@@ -183,6 +185,7 @@ class WaveformGenerator(object):
         self._cache['parameters'] = self.parameters.copy()
         self._cache['model'] = model
         self._cache['transformed_model'] = transformed_model
+        self._cache['data_points'] = np.array(data_points)
         return model_strain
 
     def _strain_from_model(self, model_data_points, model):
@@ -191,8 +194,14 @@ class WaveformGenerator(object):
     def _strain_from_transformed_model(self, transformed_model_data_points, transformed_model, transformation_function):
         transformed_model_strain = self._strain_from_model(transformed_model_data_points, transformed_model)
 
+        if transformed_model_strain is None:
+            return None
+
         if isinstance(transformed_model_strain, np.ndarray):
-            return transformation_function(transformed_model_strain, self.sampling_frequency)
+            model_strain = transformation_function(transformed_model_strain, self.sampling_frequency)
+            if isinstance(model_strain, tuple):
+                model_strain = model_strain[0]
+            return model_strain
 
         model_strain = dict()
         for key in transformed_model_strain:
-- 
2.43.0


From acc2ec9fb511bbe18ad1dd4572f4b6f3c827a395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:30 +0000
Subject: [PATCH 42/58] fix: warn about unused waveform arguments instead of
 failing

---
 bilby/gw/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/source.py b/bilby/gw/source.py
index b8d5c2e..66a8c48 100644
--- a/bilby/gw/source.py
+++ b/bilby/gw/source.py
@@ -669,7 +669,7 @@ def _base_lal_cbc_fd_waveform(
         h_cross[frequency_bounds] *= time_shift
 
     if len(waveform_kwargs) > 0:
-        logger.warning(UNUSED_KWARGS_MESSAGE.format(waveform_kwargs))
+        logger.warning(UNUSED_KWARGS_MESSAGE.format(waveform_kwargs=waveform_kwargs))
 
     return dict(plus=h_plus, cross=h_cross)
 
@@ -766,6 +766,7 @@ def lal_binary_neutron_star_relative_binning(
     waveform_kwargs.update(kwargs)
 
     if fiducial == 1:
+        _ = waveform_kwargs.pop("frequency_bin_edges", None)
         return _base_lal_cbc_fd_waveform(
             frequency_array=frequency_array, mass_1=mass_1, mass_2=mass_2,
             luminosity_distance=luminosity_distance, theta_jn=theta_jn, phase=phase,
@@ -1128,7 +1129,7 @@ def _base_waveform_frequency_sequence(
                 raise
 
     if len(waveform_kwargs) > 0:
-        logger.warning(UNUSED_KWARGS_MESSAGE.format(waveform_kwargs))
+        logger.warning(UNUSED_KWARGS_MESSAGE.format(waveform_kwargs=waveform_kwargs))
 
     return dict(plus=h_plus.data.data, cross=h_cross.data.data)
 
-- 
2.43.0


From 3acf01f70c2609b18046c3f0eb09e30e3d649a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:14 +0000
Subject: [PATCH 43/58] fix: look spectra up again when the array of
 frequencies was changed in place

---
 bilby/gw/detector/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/detector/psd.py b/bilby/gw/detector/psd.py
index a3948f9..8ec9945 100644
--- a/bilby/gw/detector/psd.py
+++ b/bilby/gw/detector/psd.py
@@ -60,7 +60,7 @@ class PowerSpectralDensity(object):
         psd_array = self.power_spectral_density_interpolated(frequency_array)
         self._cache['psd_array'] = psd_array
         self._cache['asd_array'] = psd_array**0.5
-        self._cache['frequency_array'] = frequency_array
+        self._cache['frequency_array'] = np.array(frequency_array)
 
     def __eq__(self, other):
         if self.psd_file == other.psd_file \
-- 
2.43.0


From 00be88a6cbedcd9923522f93c1c4f220e8216b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:22 +0000
Subject: [PATCH 44/58] fix: the cdf of the in-plane spin prior is one above
 its maximum

---
 bilby/gw/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index b353c60..5a3850e 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -610,7 +610,7 @@ class ConditionalChiInPlane(ConditionalBasePrior):
         self.update_conditions(**required_variables)
         chi_aligned = abs(required_variables[self._required_variables[0]])
         return np.maximum(np.minimum(
-            (val >= self.minimum) * (val <= self.maximum)
+            (val >= self.minimum)
             * np.log(1 + (val / chi_aligned) ** 2)
             / 2 / np.log(self._reference_maximum / chi_aligned)
             , 1
-- 
2.43.0


From f264969c09fd97f8ad40333190bef57d4fadb2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:22 +0000
Subject: [PATCH 45/58] fix: the cdf of the mass ratio prior is zero below and
 one above its support

---
 bilby/gw/prior.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index 5a3850e..8ac9aad 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -444,6 +444,7 @@ class UniformInComponentsMassRatio(Prior):
         return -5. * q**(-1. / 5.) * hyp2f1(-2. / 5., -1. / 5., 4. / 5., -q)
 
     def cdf(self, val):
+        val = np.clip(val, self.minimum, self.maximum)
         return (self._integral(val) - self._integral(self.minimum)) / self.norm
 
     def rescale(self, val):
-- 
2.43.0


From 8a7ab5e98f246fd0fc4cae534c5c584691d93d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:22 +0000
Subject: [PATCH 46/58] fix: cover the whole support of aligned spins whose
 tilts lie in one hemisphere

---
 bilby/gw/prior.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index 8ac9aad..7acc8aa 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -501,8 +501,9 @@ class AlignedSpin(Interped):
         self.a_prior = a_prior
         self.z_prior = z_prior
         chi_min = min(a_prior.maximum * z_prior.minimum,
+                      a_prior.minimum * z_prior.minimum)
+        chi_max = max(a_prior.maximum * z_prior.maximum,
                       a_prior.minimum * z_prior.maximum)
-        chi_max = a_prior.maximum * z_prior.maximum
         xx = np.linspace(chi_min, chi_max, 800)
         a_prior_minimum = a_prior.minimum
         if a_prior_minimum == 0:
-- 
2.43.0


From 758c07b624bb5118f1705c9f8632aaf93f830073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:22 +0000
Subject: [PATCH 47/58] fix: flat-in-component-mass conversion refuses
 unsuitable priors and leaves the result unchanged

---
 bilby/gw/prior.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index 7acc8aa..bbe8b30 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -50,18 +50,20 @@ def convert_to_flat_in_component_mass_prior(result, fraction=0.25):
     if getattr(result, "priors") is not None:
         for key in ['chirp_mass', 'mass_ratio']:
             if key not in result.priors.keys():
-                BilbyPriorConversionError("{} Prior not found in result object".format(key))
+                raise BilbyPriorConversionError("{} Prior not found in result object".format(key))
             if isinstance(result.priors[key], Constraint):
-                BilbyPriorConversionError("{} Prior should not be a Constraint".format(key))
+                raise BilbyPriorConversionError("{} Prior should not be a Constraint".format(key))
         for key in ['mass_1', 'mass_2']:
-            if not isinstance(result.priors[key], Constraint):
-                BilbyPriorConversionError("{} Prior should be a Constraint Prior".format(key))
+            if not isinstance(result.priors.get(key), Constraint):
+                raise BilbyPriorConversionError("{} Prior should be a Constraint Prior".format(key))
     else:
-        BilbyPriorConversionError("No prior in the result: unable to convert")
+        raise BilbyPriorConversionError("No prior in the result: unable to convert")
 
     result = copy.copy(result)
-    priors = result.priors
-    old_priors = copy.copy(result.priors)
+    old_priors = result.priors
+    priors = old_priors.copy()
+    result.priors = priors
+    result.meta_data = result.meta_data.copy()
     posterior = result.posterior
 
     for key in ['chirp_mass', 'mass_ratio']:
@@ -74,8 +76,6 @@ def convert_to_flat_in_component_mass_prior(result, fraction=0.25):
                                                        prior_names=['chirp_mass', 'mass_ratio', 'mass_1', 'mass_2']))
     jacobian = posterior["mass_1"] ** 2 / posterior["chirp_mass"]
     weights = jacobian * weights
-    result.posterior = posterior.sample(frac=fraction, weights=weights)
-
     logger.info("Resampling posterior to flat-in-component mass")
     effective_sample_size = sum(weights)**2 / sum(weights**2)
     n_posterior = len(posterior)
-- 
2.43.0


From 272393ee04466d615139552b7cd6899d819e3fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:22 +0000
Subject: [PATCH 48/58] fix: draw from the prior's range in the uniform MCMC
 proposal instead of returning the sample unchanged

---
 bilby/bilby_mcmc/proposals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/proposals.py b/bilby/bilby_mcmc/proposals.py
index 6100d75..62959e2 100644
--- a/bilby/bilby_mcmc/proposals.py
+++ b/bilby/bilby_mcmc/proposals.py
@@ -346,7 +346,7 @@ class UniformProposal(BaseProposal):
         sample = chain.current_sample
         for key in self.parameters:
             width = self.prior_width_dict[key]
-            if np.isinf(width) is False:
+            if not np.isinf(width):
                 sample[key] = random.rng.uniform(
                     self.prior_minimum_dict[key], self.prior_maximum_dict[key]
                 )
-- 
2.43.0


From 37e51fb51a4204e990257176a7096467d822dce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:22 +0000
Subject: [PATCH 49/58] fix: draw the correlated polarisation and phase jumps
 over the whole closed line, so that they are reversible

---
 bilby/bilby_mcmc/proposals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/bilby_mcmc/proposals.py b/bilby/bilby_mcmc/proposals.py
index 62959e2..d36fe13 100644
--- a/bilby/bilby_mcmc/proposals.py
+++ b/bilby/bilby_mcmc/proposals.py
@@ -899,9 +899,9 @@ class CorrelatedPolarisationPhaseJump(BaseGravitationalWaveTransientProposal):
 
         draw = random.rng.random()
         if draw < 0.5:
-            alpha = 3.0 * np.pi * random.rng.random()
+            alpha = 4.0 * np.pi * random.rng.random()
         else:
-            beta = 3.0 * np.pi * random.rng.random() - 2 * np.pi
+            beta = 4.0 * np.pi * random.rng.random() - 2 * np.pi
 
         # Update
         sample["psi"] = (alpha + beta) * 0.5
-- 
2.43.0


From 15288b60eac5ecee1afcd6cea3bcf01cf39a72ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:22 +0000
Subject: [PATCH 50/58] fix: continue tempered MCMC chains from the samples
 they swapped

---
 bilby/bilby_mcmc/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/bilby_mcmc/chain.py b/bilby/bilby_mcmc/chain.py
index 0c19134..943e976 100644
--- a/bilby/bilby_mcmc/chain.py
+++ b/bilby/bilby_mcmc/chain.py
@@ -127,6 +127,8 @@ class Chain(object):
             index = index + self.position + 1
 
         self._chain_array[index] = sample.list
+        if index == self.position:
+            self.current_sample = sample
 
     def key_to_idx(self, key):
         return self.keys.index(key)
-- 
2.43.0


From dda49e09b560514fa32a7d64a5243d40fc1bbdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:22 +0000
Subject: [PATCH 51/58] fix: do not take points outside the prior for the
 maximum of the posterior

---
 bilby/bilby_mcmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index c8ccf25..514bdee 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -1395,7 +1395,7 @@ def get_initial_maximimum_posterior_sample(beta):
         ln_prior = priors.ln_prob(sample)
 
         if np.isinf(ln_prior):
-            return -np.inf
+            return np.inf
 
         likelihood.parameters.update(sample)
 
-- 
2.43.0


From c7933d4a7f893d1df4c99a0c6999a77b75061f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:23 +0000
Subject: [PATCH 52/58] fix: leave the tempered chains' log likelihoods
 unchanged when rejection sampling them

---
 bilby/bilby_mcmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index 514bdee..106c662 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -1350,7 +1350,7 @@ class BilbyMCMCSampler(object):
 
         # Revert to true likelihood if needed
         if _sampling_convenience_dump.use_ratio:
-            zerotemp_logl += (
+            zerotemp_logl = zerotemp_logl + (
                 _sampling_convenience_dump.likelihood.noise_log_likelihood()
             )
 
-- 
2.43.0


From 5ed8c32b8956491860825c94911825d1350e7c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:23 +0000
Subject: [PATCH 53/58] fix: verify fitted proposal densities by the spread of
 each parameter, also for a single parameter

---
 bilby/bilby_mcmc/proposals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bilby/bilby_mcmc/proposals.py b/bilby/bilby_mcmc/proposals.py
index d36fe13..5376926 100644
--- a/bilby/bilby_mcmc/proposals.py
+++ b/bilby/bilby_mcmc/proposals.py
@@ -480,7 +480,7 @@ class DensityEstimateProposal(BaseProposal):
         self.next_refit_time *= self.fit_multiplier
 
         # Verify training hasn't overconstrained
-        new_draws = np.atleast_2d(self._sample(1000))
+        new_draws = np.reshape(self._sample(1000), (-1, self.ndim))
         verification_dataset = np.array(verification_dataset)
         fail_parameters = []
         for ii, key in enumerate(self.parameters):
@@ -541,7 +541,7 @@ class KDEProposal(DensityEstimateProposal):
         return self.density.logpdf(point)[0]
 
     def _sample(self, nsamples=None):
-        return np.atleast_1d(np.squeeze(self.density.resample(nsamples)))
+        return np.atleast_1d(np.squeeze(self.density.resample(nsamples).T))
 
 
 class GMMProposal(DensityEstimateProposal):
@@ -559,7 +559,7 @@ class GMMProposal(DensityEstimateProposal):
         return np.squeeze(self.density.score_samples(np.atleast_2d(point)))
 
     def _sample(self, nsamples=None):
-        return np.squeeze(self.density.sample(n_samples=nsamples)[0])
+        return np.atleast_1d(np.squeeze(self.density.sample(n_samples=nsamples)[0]))
 
     @staticmethod
     def check_dependencies(warn=True):
-- 
2.43.0


From 2d2a31b4e5b08a27db33e425c85ee34db0d457da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:23 +0000
Subject: [PATCH 54/58] fix: do not move one-dimensional stretch proposals by
 the boundaries

---
 bilby/bilby_mcmc/proposals.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bilby/bilby_mcmc/proposals.py b/bilby/bilby_mcmc/proposals.py
index 5376926..ad44d1b 100644
--- a/bilby/bilby_mcmc/proposals.py
+++ b/bilby/bilby_mcmc/proposals.py
@@ -998,6 +998,11 @@ class StretchProposal(BaseProposal):
 
         return _stretch_move(sample, rand, self.scale, self.ndim, self.parameters)
 
+    def apply_boundaries(self, point):
+        # A stretch that was moved by the boundaries cannot be undone by another
+        # stretch, also if its factor is one (a single parameter)
+        return point
+
 
 def _stretch_move(sample, complement, scale, ndim, parameters):
     # Draw z
@@ -1051,6 +1056,11 @@ class EnsembleStretch(EnsembleProposal):
             sample, completement, self.scale, self.ndim, self.parameters
         )
 
+    def apply_boundaries(self, point):
+        # A stretch that was moved by the boundaries cannot be undone by another
+        # stretch, also if its factor is one (a single parameter)
+        return point
+
 
 def get_default_ensemble_proposal_cycle(priors):
     return ProposalCycle([EnsembleStretch(priors)])
-- 
2.43.0


From ece0dbcc1f3ffe7f2e67d898192706fa1f586c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:07 +0000
Subject: [PATCH 55/58] fix: evaluate grids with repeated points

---
 bilby/core/grid.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/bilby/core/grid.py b/bilby/core/grid.py
index 4e88168..e235758 100644
--- a/bilby/core/grid.py
+++ b/bilby/core/grid.py
@@ -307,17 +307,14 @@ class Grid(object):
         self._evaluate_recursion(0)
         self.ln_noise_evidence = self.likelihood.noise_log_likelihood()
 
-    def _evaluate_recursion(self, dimension):
+    def _evaluate_recursion(self, dimension, current_point=()):
         if dimension == self.n_dims:
-            current_point = tuple([[int(np.where(
-                self.likelihood.parameters[name] ==
-                self.sample_points[name])[0])] for name in self.parameter_names])
             self._ln_likelihood[current_point] = self.likelihood.log_likelihood()
         else:
             name = self.parameter_names[dimension]
             for ii in range(self._ln_likelihood.shape[dimension]):
                 self.likelihood.parameters[name] = self.sample_points[name][ii]
-                self._evaluate_recursion(dimension + 1)
+                self._evaluate_recursion(dimension + 1, current_point + (ii,))
 
     def _get_sample_points(self, grid_size):
         for ii, key in enumerate(self.parameter_names):
-- 
2.43.0


From 54ea317670dbfdbd8c6984487bee550c54a79703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:09 +0000
Subject: [PATCH 56/58] fix: create samplers that are given as classes

---
 bilby/core/sampler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index ef65ce1..fe17c4a 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -275,7 +275,7 @@ def run_sampler(
             **kwargs,
         )
     elif inspect.isclass(sampler):
-        sampler = sampler.__init__(
+        sampler = sampler(
             likelihood,
             priors=priors,
             outdir=outdir,
-- 
2.43.0


From 775f19da515de0aa6ad0b3c152a5a5a788138ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:09 +0000
Subject: [PATCH 57/58] fix: sampling times given as numbers are seconds

---
 bilby/core/sampler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index fe17c4a..158bacf 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -309,7 +309,7 @@ def run_sampler(
         if result.sampling_time is None:
             result.sampling_time = end_time - start_time
         elif isinstance(result.sampling_time, (float, int)):
-            result.sampling_time = datetime.timedelta(result.sampling_time)
+            result.sampling_time = datetime.timedelta(seconds=result.sampling_time)
 
         logger.info(f"Sampling time: {result.sampling_time}")
         # Convert sampling time into seconds
-- 
2.43.0


From a780f478b25ad6d473c86fd08899bad45eceaa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:09 +0000
Subject: [PATCH 58/58] fix: convert the injection parameters only once

---
 bilby/core/sampler/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index 158bacf..8b866d3 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -332,9 +332,6 @@ def run_sampler(
         if save:
             result.save_to_file(extension=save, gzip=gzip, outdir=outdir)
 
-    if None not in [result.injection_parameters, conversion_function]:
-        result.injection_parameters = conversion_function(result.injection_parameters)
-
     # Check if the posterior has already been created
     if getattr(result, "_posterior", None) is None:
         result.samples_to_posterior(
-- 
2.43.0

