From dc4c8c4a2f5dc99db15f6f5b0f87edcf3fab6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 01/28] fix: GaussianHMM covariance update when the means are
 not fitted

With params='c' (or 'stc') the posterior and observation sums were never
accumulated, so covars_ was divided by the 1e-5 floor instead of by the
state's weight.
---
 src/hmmlearn/hmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index fec0a13..d186c2a 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -332,7 +332,8 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
                 f"covariance_type must be one of {COVARIANCE_TYPES}")
 
     def _needs_sufficient_statistics_for_mean(self):
-        return 'm' in self.params
+        # The covariance update uses the same statistics as the mean update.
+        return 'm' in self.params or 'c' in self.params
 
     def _needs_sufficient_statistics_for_covars(self):
         return 'c' in self.params
-- 
2.43.0


From b8cd1fc95fa296bcd893d62b89629b11b89af12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 02/28] fix: do not replace the random_state parameter during
 fit

CategoricalHMM, MultinomialHMM and PoissonHMM overwrote an integer seed with
a generator, so refitting the same model gave different results.
---
 src/hmmlearn/hmm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index d186c2a..6082566 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -128,10 +128,10 @@ class CategoricalHMM(_emissions.BaseCategoricalHMM, BaseHMM):
     def _init(self, X, lengths=None):
         super()._init(X, lengths)
 
-        self.random_state = check_random_state(self.random_state)
+        random_state = check_random_state(self.random_state)
 
         if self._needs_init('e', 'emissionprob_'):
-            self.emissionprob_ = self.random_state.rand(
+            self.emissionprob_ = random_state.rand(
                 self.n_components, self.n_features)
             normalize(self.emissionprob_, axis=1)
 
@@ -918,9 +918,9 @@ class MultinomialHMM(_emissions.BaseMultinomialHMM):
 
     def _init(self, X, lengths=None):
         super()._init(X, lengths=None)
-        self.random_state = check_random_state(self.random_state)
+        random_state = check_random_state(self.random_state)
         if 'e' in self.init_params:
-            self.emissionprob_ = self.random_state \
+            self.emissionprob_ = random_state \
                 .rand(self.n_components, self.n_features)
             normalize(self.emissionprob_, axis=1)
 
@@ -1037,14 +1037,14 @@ class PoissonHMM(_emissions.BasePoissonHMM):
 
     def _init(self, X, lengths=None):
         super()._init(X, lengths)
-        self.random_state = check_random_state(self.random_state)
+        random_state = check_random_state(self.random_state)
 
         mean_X = X.mean()
         var_X = X.var()
 
         if self._needs_init("l", "lambdas_"):
             # initialize with method of moments based on X
-            self.lambdas_ = self.random_state.gamma(
+            self.lambdas_ = random_state.gamma(
                 shape=mean_X**2 / var_X,
                 scale=var_X / mean_X,  # numpy uses theta = 1 / beta
                 size=(self.n_components, self.n_features))
-- 
2.43.0


From acd53e062b1b225fd7709c919d6cda4551d00712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 03/28] fix: draw GMMHMM initial means from the model's
 random_state

Clusters with fewer samples than mixtures were initialised from numpy's
global generator, ignoring random_state.
---
 src/hmmlearn/hmm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 6082566..1412d40 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -536,6 +536,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
         nc = self.n_components
         nf = self.n_features
         nm = self.n_mix
+        random_state = check_random_state(self.random_state)
 
         def compute_cv():
             return np.cov(X.T) + self.min_covar * np.eye(nf)
@@ -562,9 +563,9 @@ class GMMHMM(_emissions.BaseGMMHMM):
             else:
                 if cv is None:
                     cv = compute_cv()
-                m_cluster = np.random.multivariate_normal(main_centroid,
-                                                          cov=cv,
-                                                          size=nm)
+                m_cluster = random_state.multivariate_normal(main_centroid,
+                                                             cov=cv,
+                                                             size=nm)
                 means.append(m_cluster)
 
         if self._needs_init("w", "weights_"):
-- 
2.43.0


From e46f872feacc60794f541ea15e0b759105e951b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 04/28] fix: default covariance prior of spherical GMMHMM

The prior that cancels out of the spherical update depends on n_features,
not n_mix; with n_mix != n_features EM lowered the likelihood and could make
covariances negative.
---
 src/hmmlearn/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 1412d40..79198fd 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -610,7 +610,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 self.covars_weight = 0.0
         elif self.covariance_type == "spherical":
             if self.covars_prior is None:
-                self.covars_prior = -(self.n_mix + 2.0) / 2.0
+                self.covars_prior = -(self.n_features + 2.0) / 2.0
             if self.covars_weight is None:
                 self.covars_weight = 0.0
 
-- 
2.43.0


From 8b0738ca1a1bdf22039c3c3e7847aacad67bc0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 05/28] fix: never sample a zero-probability state or symbol

When a cumulative sum ends below 1, a draw above its last entry selected
index 0 regardless of that entry's probability.
---
 src/hmmlearn/_emissions.py | 1 +
 src/hmmlearn/base.py       | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index a697c11..ddaea6c 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -105,6 +105,7 @@ class BaseCategoricalHMM(_AbstractHMM):
 
     def _generate_sample_from_state(self, state, random_state=None):
         cdf = np.cumsum(self.emissionprob_[state, :])
+        cdf = cdf / cdf[-1]  # See sample().
         random_state = check_random_state(random_state)
         return [(cdf > random_state.rand()).argmax()]
 
diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 580b71a..c62411c 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -431,10 +431,14 @@ class _AbstractHMM(BaseEstimator):
             random_state = self.random_state
         random_state = check_random_state(random_state)
 
+        # Rounding can leave the last entry of a cdf below 1, in which case a
+        # draw above it would select the first state whatever its probability.
         transmat_cdf = np.cumsum(self.transmat_, axis=1)
+        transmat_cdf = transmat_cdf / transmat_cdf[:, -1:]
 
         if currstate is None:
             startprob_cdf = np.cumsum(self.startprob_)
+            startprob_cdf = startprob_cdf / startprob_cdf[-1]
             currstate = (startprob_cdf > random_state.rand()).argmax()
 
         state_sequence = [currstate]
-- 
2.43.0


From 52d4a2d5fd233568c78ad7665473b6786590cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 06/28] fix: reject empty or negative sequence lengths

They produced empty sub-sequences, for which the native routines write and
read out of bounds.
---
 src/hmmlearn/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/_utils.py b/src/hmmlearn/_utils.py
index 9f257d2..0899d0a 100644
--- a/src/hmmlearn/_utils.py
+++ b/src/hmmlearn/_utils.py
@@ -18,6 +18,8 @@ def split_X_lengths(X, lengths):
     if lengths is None:
         return [X]
     else:
+        if np.any(np.asarray(lengths) <= 0):
+            raise ValueError(f"lengths array {lengths} must be positive")
         cs = np.cumsum(lengths)
         n_samples = len(X)
         if cs[-1] != n_samples:
-- 
2.43.0


From fbcdac218778e920d8f040794d1ac1a76d7ca5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 07/28] fix: weigh the PoissonHMM prior against each state's
 own observations

The Gamma prior was combined with the number of samples of all states, not
with the expected number of samples of the state being updated.
---
 src/hmmlearn/hmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 79198fd..0dc2e6b 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -1068,10 +1068,10 @@ class PoissonHMM(_emissions.BasePoissonHMM):
             # section 3.2
             # https://vioshyvo.github.io/Bayesian_inference
             alphas, betas = self.lambdas_prior, self.lambdas_weight
-            n = stats['post'].sum()
-            y_bar = stats['obs'] / stats['post'][:, None]
+            n = stats['post'][:, None]
             # the same as kappa notation (more intuitive) but avoids divide by
             # 0, where:
+            # y_bar = stats['obs'] / n
             # kappas = betas / (betas + n)
             # self.lambdas_ = kappas * (alphas / betas) + (1 - kappas) * y_bar
-            self.lambdas_ = (alphas + n * y_bar) / (betas + n)
+            self.lambdas_ = (alphas + stats['obs']) / (betas + n)
-- 
2.43.0


From ea105404a803aeb98aa99f0d159eb384be478e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 08/28] fix: reject negative probabilities

Distributions such as [1.5, -0.5] sum to 1 and passed validation.
---
 src/hmmlearn/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index c62411c..648eb7c 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -559,7 +559,10 @@ class _AbstractHMM(BaseEstimator):
 
     def _check_sum_1(self, name):
         """Check that an array describes one or more distributions."""
-        s = getattr(self, name).sum(axis=-1)
+        a = getattr(self, name)
+        if (a < 0).any():
+            raise ValueError(f"{name} must not contain negative values")
+        s = a.sum(axis=-1)
         if not np.allclose(s, 1):
             raise ValueError(
                 f"{name} must sum to 1 (got {s:.4f})"
@@ -950,7 +953,10 @@ class BaseHMM(_AbstractHMM):
 
     def _check_sum_1(self, name):
         """Check that an array describes one or more distributions."""
-        s = getattr(self, name).sum(axis=-1)
+        a = getattr(self, name)
+        if (a < 0).any():
+            raise ValueError(f"{name} must not contain negative values")
+        s = a.sum(axis=-1)
         if not np.allclose(s, 1):
             raise ValueError(
                 f"{name} must sum to 1 (got {s:.4f})"
-- 
2.43.0


From 063356384694e97a19a5018e0edd6d91b99eef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 09/28] fix: covars_ of a fitted spherical model has one matrix
 per state

---
 src/hmmlearn/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/utils.py b/src/hmmlearn/utils.py
index a080e56..2f3cf92 100644
--- a/src/hmmlearn/utils.py
+++ b/src/hmmlearn/utils.py
@@ -63,9 +63,9 @@ def fill_covars(covars, covariance_type='full', n_components=1, n_features=1):
     elif covariance_type == 'tied':
         return np.tile(covars, (n_components, 1, 1))
     elif covariance_type == 'spherical':
-        # Regardless of what is passed in, we flatten in
-        # and then expand it to the correct shape
-        covars = np.ravel(covars)
+        # The variance of each state may be repeated for each feature; keep
+        # one value per state and then expand it to the correct shape
+        covars = np.reshape(covars, (n_components, -1))[:, 0]
         eye = np.eye(n_features)[np.newaxis, :, :]
         covars = covars[:, np.newaxis, np.newaxis]
         return eye * covars
-- 
2.43.0


From 88a08a6d1d905fb216a035d3100d951a69fb18b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 10/28] fix: set_params reaches the convergence monitor

---
 src/hmmlearn/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 648eb7c..30ed1df 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -180,6 +180,15 @@ class _AbstractHMM(BaseEstimator):
         self.implementation = implementation
         self.random_state = random_state
 
+    def set_params(self, **params):
+        super().set_params(**params)
+        # The monitor was built from the values given to the constructor.
+        for name in {"tol", "n_iter", "verbose"} & {*params}:
+            setattr(self.monitor_, name, params[name])
+        return self
+
+    set_params.__doc__ = BaseEstimator.set_params.__doc__
+
     def score_samples(self, X, lengths=None):
         """
         Compute the log probability under the model and compute posteriors.
-- 
2.43.0


From 64571d34f0fe9516ecdafd8d3744626089ab1644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 11/28] fix: refuse empty emission arrays in the native passes

---
 ext/_hmmc.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ext/_hmmc.cpp b/ext/_hmmc.cpp
index 3a4a1d3..70abe71 100644
--- a/ext/_hmmc.cpp
+++ b/ext/_hmmc.cpp
@@ -54,6 +54,9 @@ std::tuple<double, py::array_t<double>, py::array_t<double>> forward_scaling(
   auto transmat = transmat_.unchecked<2>();
   auto frameprob = frameprob_.unchecked<2>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
+  if (ns < 1) {
+    throw std::invalid_argument{"empty sequence"};
+  }
   if (startprob.shape(0) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
@@ -112,6 +115,9 @@ std::tuple<double, py::array_t<double>> forward_log(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
+  if (ns < 1) {
+    throw std::invalid_argument{"empty sequence"};
+  }
   if (log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
@@ -148,6 +154,9 @@ py::array_t<double> backward_scaling(
   auto frameprob = frameprob_.unchecked<2>();
   auto scaling = scaling_.unchecked<1>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
+  if (ns < 1) {
+    throw std::invalid_argument{"empty sequence"};
+  }
   if (startprob.shape(0) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc
       || scaling.shape(0) != ns) {
@@ -182,6 +191,9 @@ py::array_t<double> backward_log(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
+  if (ns < 1) {
+    throw std::invalid_argument{"empty sequence"};
+  }
   if (log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
@@ -215,6 +227,9 @@ py::array_t<double> compute_scaling_xi_sum(
   auto bwd = bwdlattice_.unchecked<2>();
   auto frameprob = frameprob_.unchecked<2>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
+  if (ns < 1) {
+    throw std::invalid_argument{"empty sequence"};
+  }
   if (fwd.shape(0) != ns || fwd.shape(1) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc
       || bwd.shape(0) != ns || bwd.shape(1) != nc) {
@@ -249,6 +264,9 @@ py::array_t<double> compute_log_xi_sum(
   auto bwd = bwdlattice_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
+  if (ns < 1) {
+    throw std::invalid_argument{"empty sequence"};
+  }
   if (fwd.shape(0) != ns || fwd.shape(1) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc
       || bwd.shape(0) != ns || bwd.shape(1) != nc) {
@@ -286,6 +304,9 @@ std::tuple<double, py::array_t<ssize_t>> viterbi(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
+  if (ns < 1) {
+    throw std::invalid_argument{"empty sequence"};
+  }
   if (log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
-- 
2.43.0


From 6bc76a9e7ec8785598bcabfe5f74771a90bc20d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 12/28] fix: validate the emission probabilities of
 MultinomialHMM

MultinomialHMM accepted any emissionprob_ (for example the ones left by a fit
interrupted between drawing and normalising them, or rows not summing to one):
scipy silently rescales the last probability, so scores did not belong to the
model's visible parameters.
---
 src/hmmlearn/hmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 0dc2e6b..19bafe8 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -934,6 +934,7 @@ class MultinomialHMM(_emissions.BaseMultinomialHMM):
                 "emissionprob_ must have shape (n_components, n_features)")
         else:
             self.n_features = n_features
+        self._check_sum_1("emissionprob_")
         if self.n_trials is None:
             raise ValueError("n_trials must be set")
 
-- 
2.43.0


From c1deaefddfeb5ea62c305788587a252b54cfd934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 13/28] fix: replace spherical covariances of GaussianHMM in
 one step

An interrupt between the two assignments of the update left variances that
differ between features: the model scored with them, but covars_ showed only
the first of each state.
---
 src/hmmlearn/hmm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 19bafe8..37126ae 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -364,10 +364,11 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
                        - 2 * self.means_ * stats['obs']
                        + self.means_**2 * denom)
                 c_d = max(covars_weight - 1, 0) + denom
-                self._covars_ = (covars_prior + c_n) / np.maximum(c_d, 1e-5)
+                covars = (covars_prior + c_n) / np.maximum(c_d, 1e-5)
                 if self.covariance_type == 'spherical':
-                    self._covars_ = np.tile(self._covars_.mean(1)[:, None],
-                                            (1, self._covars_.shape[1]))
+                    covars = np.tile(covars.mean(1)[:, None],
+                                     (1, covars.shape[1]))
+                self._covars_ = covars
             elif self.covariance_type in ('tied', 'full'):
                 c_n = np.empty((self.n_components, self.n_features,
                                 self.n_features))
-- 
2.43.0


From d765927bf217ff302601c257723da036782f20fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 14/28] fix: get_stationary_distribution refuses an invalid
 transmat_

---
 src/hmmlearn/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 30ed1df..1a8cb2c 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -882,6 +882,7 @@ class BaseHMM(_AbstractHMM):
         # associated with the largest eigenvalue (i.e., 1) of the transition
         # matrix.
         check_is_fitted(self, "transmat_")
+        self._check_transmat()
         eigvals, eigvecs = linalg.eig(self.transmat_.T)
         eigvec = np.real_if_close(eigvecs[:, np.argmax(eigvals)])
         return eigvec / eigvec.sum()
@@ -989,6 +990,9 @@ class BaseHMM(_AbstractHMM):
             raise ValueError("startprob_ must have length n_components")
         self._check_sum_1("startprob_")
 
+        self._check_transmat()
+
+    def _check_transmat(self):
         self.transmat_ = np.asarray(self.transmat_)
         if self.transmat_.shape != (self.n_components, self.n_components):
             raise ValueError(
-- 
2.43.0


From 7b5299599172cc1dadb18245e968c7ac6777098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 15/28] fix: count the free mixture weights of every state of a
 GMMHMM

---
 src/hmmlearn/_emissions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index ddaea6c..fdd4168 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -198,7 +198,7 @@ class BaseGMMHMM(BaseHMM):
                 "full": nc * nm * nf * (nf + 1) // 2,
                 "tied": nc * nf * (nf + 1) // 2,
             }[self.covariance_type],
-            "w": nm - 1,
+            "w": nc * (nm - 1),
         }
 
     def _compute_log_weighted_gaussian_densities(self, X, i_comp):
-- 
2.43.0


From 7e77d145c811073c0ddd6614cd6725e8dbb65bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 16/28] fix: aic and bic of models whose parameters were
 assigned

---
 src/hmmlearn/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 1a8cb2c..572bc84 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1020,8 +1020,9 @@ class BaseHMM(_AbstractHMM):
         aic : float
             The lower the better.
         """
+        log_prob = self.score(X, lengths=lengths)  # Also sets n_features.
         n_params = sum(self._get_n_fit_scalars_per_param().values())
-        return -2 * self.score(X, lengths=lengths) + 2 * n_params
+        return -2 * log_prob + 2 * n_params
 
     def bic(self, X, lengths=None):
         """
@@ -1044,8 +1045,9 @@ class BaseHMM(_AbstractHMM):
         bic : float
             The lower the better.
         """
+        log_prob = self.score(X, lengths=lengths)  # Also sets n_features.
         n_params = sum(self._get_n_fit_scalars_per_param().values())
-        return -2 * self.score(X, lengths=lengths) + n_params * np.log(len(X))
+        return -2 * log_prob + n_params * np.log(len(X))
 
 
 _BaseHMM = BaseHMM  # Backcompat name, will be deprecated in the future.
-- 
2.43.0


From 50adf89cef597595cfaeb44fbe9c79c050f6908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:07 +0000
Subject: [PATCH 17/28] fix: square integer observations as floats

The squares of narrow integers (e.g. 16-bit audio samples) wrapped around,
which silently gave wrong diagonal and spherical covariances.
---
 src/hmmlearn/_emissions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index fdd4168..e4dea38 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -155,7 +155,8 @@ class BaseGaussianHMM(_AbstractHMM):
 
         if self._needs_sufficient_statistics_for_covars():
             if self.covariance_type in ('spherical', 'diag'):
-                stats['obs**2'] += posteriors.T @ X**2
+                # Squares of e.g. 16-bit integers do not fit in their own type.
+                stats['obs**2'] += posteriors.T @ np.square(X, dtype=float)
             elif self.covariance_type in ('tied', 'full'):
                 # posteriors: (nt, nc); obs: (nt, nf); obs: (nt, nf)
                 # -> (nc, nf, nf)
-- 
2.43.0


From f49d9866565c1c5d157d805b821132662ac98857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 18/28] fix: count the symbols of narrow integer data

The inferred n_features kept the integer type of the data, so that it (or the
counts of parameters derived from it) wrapped around or raised OverflowError,
e.g. for bytes.
---
 src/hmmlearn/_emissions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index e4dea38..d595853 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -65,7 +65,7 @@ class BaseCategoricalHMM(_AbstractHMM):
                     f"Largest symbol is {X.max()} but the model only emits "
                     f"symbols up to {self.n_features - 1}")
         else:
-            self.n_features = X.max() + 1
+            self.n_features = int(X.max()) + 1
 
     def _get_n_fit_scalars_per_param(self):
         nc = self.n_components
-- 
2.43.0


From a0f1baa2131cc3120ec3844bde2d37d396aaf1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 19/28] fix: add up lengths of narrow integer types

The builtin sum of e.g. an int8 array wraps around, which initialized the
variational posteriors to negative counts.
---
 src/hmmlearn/base.py | 2 +-
 src/hmmlearn/vhmm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 572bc84..73c56a9 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1109,7 +1109,7 @@ class VariationalBaseHMM(_AbstractHMM):
                 (nc, nc), transmat_init)
             self.transmat_posterior_ = random_state.dirichlet(
                 np.full(nc, uniform_prior), size=nc)
-            self.transmat_posterior_ *= sum(lengths) / nc
+            self.transmat_posterior_ *= np.sum(lengths) / nc
 
         n_fit_scalars_per_param = self._get_n_fit_scalars_per_param()
         if n_fit_scalars_per_param is not None:
diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 32f7bef..9a6c703 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -155,7 +155,7 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
             self.emissionprob_posterior_ = random_state.dirichlet(
                 alpha=[emissionprob_init] * self.n_features,
                 size=self.n_components
-            ) * sum(lengths) / self.n_components
+            ) * np.sum(lengths) / self.n_components
 
     def _estep_begin(self):
         super()._estep_begin()
-- 
2.43.0


From 7d8838a092d9f135adc51411588cb246a6184e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:31 +0000
Subject: [PATCH 20/28] fix: variational models fitted without 's', 't' or 'e'

The probabilities that only the M-step used to set were missing if params
left them out, so that fit and all later uses raised AttributeError or
NotFittedError.  Set them when the posteriors are initialized.
---
 src/hmmlearn/base.py | 4 ++++
 src/hmmlearn/vhmm.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 73c56a9..d91d396 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1098,6 +1098,8 @@ class VariationalBaseHMM(_AbstractHMM):
             self.startprob_prior_ = np.full(nc, startprob_init)
             self.startprob_posterior_ = random_state.dirichlet(
                 np.full(nc, uniform_prior)) * len(lengths)
+            self.startprob_ = (self.startprob_posterior_
+                               / self.startprob_posterior_.sum())
 
         if (self._needs_init("t", "transmat_posterior_")
                 or self._needs_init("t", "transmat_prior_")):
@@ -1110,6 +1112,8 @@ class VariationalBaseHMM(_AbstractHMM):
             self.transmat_posterior_ = random_state.dirichlet(
                 np.full(nc, uniform_prior), size=nc)
             self.transmat_posterior_ *= np.sum(lengths) / nc
+            self.transmat_ = (self.transmat_posterior_
+                              / self.transmat_posterior_.sum(axis=1)[:, None])
 
         n_fit_scalars_per_param = self._get_n_fit_scalars_per_param()
         if n_fit_scalars_per_param is not None:
diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 9a6c703..06b1b6b 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -156,6 +156,9 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
                 alpha=[emissionprob_init] * self.n_features,
                 size=self.n_components
             ) * np.sum(lengths) / self.n_components
+            self.emissionprob_ = (
+                self.emissionprob_posterior_
+                / self.emissionprob_posterior_.sum(axis=1)[:, None])
 
     def _estep_begin(self):
         super()._estep_begin()
-- 
2.43.0


From 884e475f8fb6ff446d229c1c2c0d1fa438e3038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:28 +0000
Subject: [PATCH 21/28] fix: PoissonHMM fitted to equal counts

The method of moments divides by the variance of the data; when all counts
are equal the initial rates were NaN, and so was the fitted model.
---
 src/hmmlearn/hmm.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 37126ae..ba902a7 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -1046,11 +1046,15 @@ class PoissonHMM(_emissions.BasePoissonHMM):
         var_X = X.var()
 
         if self._needs_init("l", "lambdas_"):
-            # initialize with method of moments based on X
-            self.lambdas_ = random_state.gamma(
-                shape=mean_X**2 / var_X,
-                scale=var_X / mean_X,  # numpy uses theta = 1 / beta
-                size=(self.n_components, self.n_features))
+            if var_X > 0:
+                # initialize with method of moments based on X
+                self.lambdas_ = random_state.gamma(
+                    shape=mean_X**2 / var_X,
+                    scale=var_X / mean_X,  # numpy uses theta = 1 / beta
+                    size=(self.n_components, self.n_features))
+            else:  # all counts are equal
+                self.lambdas_ = np.full(
+                    (self.n_components, self.n_features), mean_X)
 
     def _check(self):
         super()._check()
-- 
2.43.0


From 1defe6ce142898bc3c7c690a17ef25478dab7657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 22/28] fix: proper initial posteriors for the variational
 Gaussian model

The degrees of freedom of the initial Wishart posterior were the bare
cluster counts; a cluster of fewer than n_features samples made it improper,
and fits of small data sets silently ended with NaN.
---
 src/hmmlearn/vhmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 06b1b6b..2190e1e 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -511,14 +511,14 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                         (self.n_components,), self.n_features)
                 else:
                     self.dof_prior_ = self.dof_prior
-                self.dof_posterior_ = np.copy(cluster_counts)
+                self.dof_posterior_ = self.dof_prior_ + cluster_counts
 
             elif self.covariance_type == "tied":
                 if self.dof_prior is None:
                     self.dof_prior_ = self.n_features
                 else:
                     self.dof_prior_ = self.dof_prior
-                self.dof_posterior_ = cluster_counts.sum()
+                self.dof_posterior_ = self.dof_prior_ + cluster_counts.sum()
 
             # Covariance posterior comes from the estimate of the data
             # We store and update both W_k and scale_posterior_,
-- 
2.43.0


From 88adc0b8fa6bf5637db45347261386cd3845b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:31 +0000
Subject: [PATCH 23/28] fix: covars_ of a spherical model whose n_components
 was changed

Reading it raised, and with it a new fit from scratch.
---
 src/hmmlearn/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/utils.py b/src/hmmlearn/utils.py
index 2f3cf92..f3fddd9 100644
--- a/src/hmmlearn/utils.py
+++ b/src/hmmlearn/utils.py
@@ -65,7 +65,8 @@ def fill_covars(covars, covariance_type='full', n_components=1, n_features=1):
     elif covariance_type == 'spherical':
         # The variance of each state may be repeated for each feature; keep
         # one value per state and then expand it to the correct shape
-        covars = np.reshape(covars, (n_components, -1))[:, 0]
+        covars = np.atleast_1d(covars)
+        covars = covars.reshape(len(covars), -1)[:, 0]
         eye = np.eye(n_features)[np.newaxis, :, :]
         covars = covars[:, np.newaxis, np.newaxis]
         return eye * covars
-- 
2.43.0


From 27a28ae419f4d1c475bea7c90630548851d9aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:19 +0000
Subject: [PATCH 24/28] fix: GMMHMM keeps the prior parameters as given

Every check overwrote the constructor parameters by defaults and broadcast
arrays for the configuration at hand. After set_params(n_components=...),
n_mix=... or covariance_type=... the model refused to be fitted, or was
fitted with the priors of the other covariance type.
---
 src/hmmlearn/_emissions.py |  2 +-
 src/hmmlearn/hmm.py        | 95 ++++++++++++++++++++------------------
 2 files changed, 50 insertions(+), 47 deletions(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index d595853..3b48d3f 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -227,7 +227,7 @@ class BaseGMMHMM(BaseHMM):
         stats['post_sum'] = np.zeros(self.n_components)
 
         if 'm' in self.params:
-            lambdas, mus = self.means_weight, self.means_prior
+            lambdas, mus = self._means_weight, self._means_prior
             stats['m_n'] = lambdas[:, :, None] * mus
         if 'c' in self.params:
             stats['c_n'] = np.zeros_like(self.covars_)
diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index ba902a7..0aacc59 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -594,26 +594,29 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 self.covars_[:] = cv.mean()
 
     def _init_covar_priors(self):
+        # The parameters themselves stay as given by the user.
+        self._covars_prior = self.covars_prior
+        self._covars_weight = self.covars_weight
         if self.covariance_type == "full":
-            if self.covars_prior is None:
-                self.covars_prior = 0.0
-            if self.covars_weight is None:
-                self.covars_weight = -(1.0 + self.n_features + 1.0)
+            if self._covars_prior is None:
+                self._covars_prior = 0.0
+            if self._covars_weight is None:
+                self._covars_weight = -(1.0 + self.n_features + 1.0)
         elif self.covariance_type == "tied":
-            if self.covars_prior is None:
-                self.covars_prior = 0.0
-            if self.covars_weight is None:
-                self.covars_weight = -(self.n_mix + self.n_features + 1.0)
+            if self._covars_prior is None:
+                self._covars_prior = 0.0
+            if self._covars_weight is None:
+                self._covars_weight = -(self.n_mix + self.n_features + 1.0)
         elif self.covariance_type == "diag":
-            if self.covars_prior is None:
-                self.covars_prior = -1.5
-            if self.covars_weight is None:
-                self.covars_weight = 0.0
+            if self._covars_prior is None:
+                self._covars_prior = -1.5
+            if self._covars_weight is None:
+                self._covars_weight = 0.0
         elif self.covariance_type == "spherical":
-            if self.covars_prior is None:
-                self.covars_prior = -(self.n_features + 2.0) / 2.0
-            if self.covars_weight is None:
-                self.covars_weight = 0.0
+            if self._covars_prior is None:
+                self._covars_prior = -(self.n_features + 2.0) / 2.0
+            if self._covars_weight is None:
+                self._covars_weight = 0.0
 
     def _fix_priors_shape(self):
         nc = self.n_components
@@ -622,33 +625,33 @@ class GMMHMM(_emissions.BaseGMMHMM):
 
         # If priors are numbers, this function will make them into a
         # matrix of proper shape
-        self.weights_prior = np.broadcast_to(
+        self._weights_prior = np.broadcast_to(
             self.weights_prior, (nc, nm)).copy()
-        self.means_prior = np.broadcast_to(
+        self._means_prior = np.broadcast_to(
             self.means_prior, (nc, nm, nf)).copy()
-        self.means_weight = np.broadcast_to(
+        self._means_weight = np.broadcast_to(
             self.means_weight, (nc, nm)).copy()
 
         if self.covariance_type == "full":
-            self.covars_prior = np.broadcast_to(
-                self.covars_prior, (nc, nm, nf, nf)).copy()
-            self.covars_weight = np.broadcast_to(
-                self.covars_weight, (nc, nm)).copy()
+            self._covars_prior = np.broadcast_to(
+                self._covars_prior, (nc, nm, nf, nf)).copy()
+            self._covars_weight = np.broadcast_to(
+                self._covars_weight, (nc, nm)).copy()
         elif self.covariance_type == "tied":
-            self.covars_prior = np.broadcast_to(
-                self.covars_prior, (nc, nf, nf)).copy()
-            self.covars_weight = np.broadcast_to(
-                self.covars_weight, nc).copy()
+            self._covars_prior = np.broadcast_to(
+                self._covars_prior, (nc, nf, nf)).copy()
+            self._covars_weight = np.broadcast_to(
+                self._covars_weight, nc).copy()
         elif self.covariance_type == "diag":
-            self.covars_prior = np.broadcast_to(
-                self.covars_prior, (nc, nm, nf)).copy()
-            self.covars_weight = np.broadcast_to(
-                self.covars_weight, (nc, nm, nf)).copy()
+            self._covars_prior = np.broadcast_to(
+                self._covars_prior, (nc, nm, nf)).copy()
+            self._covars_weight = np.broadcast_to(
+                self._covars_weight, (nc, nm, nf)).copy()
         elif self.covariance_type == "spherical":
-            self.covars_prior = np.broadcast_to(
-                self.covars_prior, (nc, nm)).copy()
-            self.covars_weight = np.broadcast_to(
-                self.covars_weight, (nc, nm)).copy()
+            self._covars_prior = np.broadcast_to(
+                self._covars_prior, (nc, nm)).copy()
+            self._covars_weight = np.broadcast_to(
+                self._covars_weight, (nc, nm)).copy()
 
     def _check(self):
         super()._check()
@@ -741,7 +744,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
 
         # Maximizing weights
         if 'w' in self.params:
-            alphas_minus_one = self.weights_prior - 1
+            alphas_minus_one = self._weights_prior - 1
             w_n = stats['post_mix_sum'] + alphas_minus_one
             w_d = (stats['post_sum'] + alphas_minus_one.sum(axis=1))[:, None]
             self.weights_ = w_n / w_d
@@ -749,7 +752,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
         # Maximizing means
         if 'm' in self.params:
             m_n = stats['m_n']
-            m_d = stats['post_mix_sum'] + self.means_weight
+            m_d = stats['post_mix_sum'] + self._means_weight
             # If a componenent has zero weight, then replace nan (0/0?) means
             # by 0 (0/1).  The actual value is irrelevant as the component will
             # be unused.  This needs to be done before maximizing covariances
@@ -760,7 +763,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
 
         # Maximizing covariances
         if 'c' in self.params:
-            lambdas, mus = self.means_weight, self.means_prior
+            lambdas, mus = self._means_weight, self._means_prior
             centered_means = self.means_ - mus
 
             def outer_f(x):  # Outer product over features.
@@ -769,8 +772,8 @@ class GMMHMM(_emissions.BaseGMMHMM):
             if self.covariance_type == 'full':
                 centered_means_dots = outer_f(centered_means)
 
-                psis_t = np.transpose(self.covars_prior, axes=(0, 1, 3, 2))
-                nus = self.covars_weight
+                psis_t = np.transpose(self._covars_prior, axes=(0, 1, 3, 2))
+                nus = self._covars_weight
 
                 c_n = psis_t + lambdas[:, :, None, None] * centered_means_dots
                 c_n += stats['c_n']
@@ -779,8 +782,8 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 )[:, :, None, None]
 
             elif self.covariance_type == 'diag':
-                alphas = self.covars_prior
-                betas = self.covars_weight
+                alphas = self._covars_prior
+                betas = self._covars_weight
                 centered_means2 = centered_means ** 2
 
                 c_n = lambdas[:, :, None] * centered_means2 + 2 * betas
@@ -791,8 +794,8 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 centered_means_norm2 = np.einsum(  # Faster than (x**2).sum(-1)
                     '...i,...i', centered_means, centered_means)
 
-                alphas = self.covars_prior
-                betas = self.covars_weight
+                alphas = self._covars_prior
+                betas = self._covars_weight
 
                 c_n = lambdas * centered_means_norm2 + 2 * betas
                 c_n += stats['c_n']
@@ -801,8 +804,8 @@ class GMMHMM(_emissions.BaseGMMHMM):
             elif self.covariance_type == 'tied':
                 centered_means_dots = outer_f(centered_means)
 
-                psis_t = np.transpose(self.covars_prior, axes=(0, 2, 1))
-                nus = self.covars_weight
+                psis_t = np.transpose(self._covars_prior, axes=(0, 2, 1))
+                nus = self._covars_weight
 
                 c_n = np.einsum('ij,ijkl->ikl',
                                 lambdas, centered_means_dots) + psis_t
-- 
2.43.0


From b3d2e6bb9ec6eec15d4a18016c35a108f891e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:59 +0000
Subject: [PATCH 25/28] fix: start variational categorical training from prior
 plus counts

The random initial concentrations of VariationalCategoricalHMM were drawn from
a Dirichlet distribution with the prior's concentrations and taken as they
came.  With the default prior of 1 / n_features and some tens of symbols many
of them are below 1e-40, their digamma beyond 1e40, and the forward-backward
passes lose everything else to rounding: a third of the fits of 40 symbols and
more ended with NaN in transmat_.
---
 src/hmmlearn/vhmm.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 2190e1e..053c71c 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -152,10 +152,15 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
                 emissionprob_init = self.emissionprob_prior
             self.emissionprob_prior_ = np.full(
                 (self.n_components, self.n_features), emissionprob_init)
-            self.emissionprob_posterior_ = random_state.dirichlet(
-                alpha=[emissionprob_init] * self.n_features,
-                size=self.n_components
-            ) * np.sum(lengths) / self.n_components
+            # Prior plus random counts: a smaller concentration could not be
+            # a posterior, and the expected logarithm of very small ones is
+            # beyond what the forward-backward passes can handle.
+            self.emissionprob_posterior_ = (
+                self.emissionprob_prior_
+                + random_state.dirichlet(
+                    alpha=[emissionprob_init] * self.n_features,
+                    size=self.n_components
+                ) * np.sum(lengths) / self.n_components)
             self.emissionprob_ = (
                 self.emissionprob_posterior_
                 / self.emissionprob_posterior_.sum(axis=1)[:, None])
-- 
2.43.0


From fcad0707ca58f265e40a64941e3a8b9921009e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:49 +0000
Subject: [PATCH 26/28] fix: draw initial emissions from a per-state
 emissionprob_prior

---
 src/hmmlearn/vhmm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 053c71c..3ecde81 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -157,10 +157,10 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
             # beyond what the forward-backward passes can handle.
             self.emissionprob_posterior_ = (
                 self.emissionprob_prior_
-                + random_state.dirichlet(
-                    alpha=[emissionprob_init] * self.n_features,
-                    size=self.n_components
-                ) * np.sum(lengths) / self.n_components)
+                + np.stack([
+                    random_state.dirichlet(alpha)
+                    for alpha in self.emissionprob_prior_
+                ]) * np.sum(lengths) / self.n_components)
             self.emissionprob_ = (
                 self.emissionprob_posterior_
                 / self.emissionprob_posterior_.sum(axis=1)[:, None])
-- 
2.43.0


From d51adcf741e87e69ebd9b6cb70a66421915d6f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:49 +0000
Subject: [PATCH 27/28] fix: priors given per state or mixture component apply
 to their rows

---
 src/hmmlearn/_utils.py |  6 ++++++
 src/hmmlearn/hmm.py    | 32 +++++++++++++++++++++-----------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/hmmlearn/_utils.py b/src/hmmlearn/_utils.py
index 0899d0a..7f4c673 100644
--- a/src/hmmlearn/_utils.py
+++ b/src/hmmlearn/_utils.py
@@ -28,6 +28,12 @@ def split_X_lengths(X, lengths):
         return np.split(X, cs)[:-1]
 
 
+def per_row(prior, n, ndim):
+    """Make a prior given as *n* numbers broadcast as the *n* rows of an array."""
+    prior = np.asarray(prior)
+    return prior.reshape((n,) + (1,) * (ndim - 1)) if prior.shape == (n,) else prior
+
+
 # Copied from scikit-learn 0.19.
 def _validate_covars(covars, covariance_type, n_components):
     """Do basic checks on matrix covariance sizes and values."""
diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 0aacc59..3d5dc39 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -341,8 +341,8 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
     def _do_mstep(self, stats):
         super()._do_mstep(stats)
 
-        means_prior = self.means_prior
-        means_weight = self.means_weight
+        means_prior = _utils.per_row(self.means_prior, self.n_components, 2)
+        means_weight = _utils.per_row(self.means_weight, self.n_components, 2)
 
         # TODO: find a proper reference for estimates for different
         #       covariance models.
@@ -356,6 +356,11 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
         if 'c' in self.params:
             covars_prior = self.covars_prior
             covars_weight = self.covars_weight
+            if self.covariance_type != 'tied':
+                ndim = 3 if self.covariance_type == 'full' else 2
+                covars_prior, covars_weight = (
+                    _utils.per_row(prior, self.n_components, ndim)
+                    for prior in (covars_prior, covars_weight))
             meandiff = self.means_ - means_prior
 
             if self.covariance_type in ('spherical', 'diag'):
@@ -363,7 +368,7 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
                        + stats['obs**2']
                        - 2 * self.means_ * stats['obs']
                        + self.means_**2 * denom)
-                c_d = max(covars_weight - 1, 0) + denom
+                c_d = np.maximum(covars_weight - 1, 0) + denom
                 covars = (covars_prior + c_n) / np.maximum(c_d, 1e-5)
                 if self.covariance_type == 'spherical':
                     covars = np.tile(covars.mean(1)[:, None],
@@ -374,13 +379,13 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
                                 self.n_features))
                 for c in range(self.n_components):
                     obsmean = np.outer(stats['obs'][c], self.means_[c])
-                    c_n[c] = (means_weight * np.outer(meandiff[c],
-                                                      meandiff[c])
+                    c_n[c] = (np.broadcast_to(means_weight, meandiff.shape)[c]
+                              * np.outer(meandiff[c], meandiff[c])
                               + stats['obs*obs.T'][c]
                               - obsmean - obsmean.T
                               + np.outer(self.means_[c], self.means_[c])
                               * stats['post'][c])
-                cvweight = max(covars_weight - self.n_features, 0)
+                cvweight = np.maximum(covars_weight - self.n_features, 0)
                 if self.covariance_type == 'tied':
                     self._covars_ = ((covars_prior + c_n.sum(axis=0)) /
                                      (cvweight + stats['post'].sum()))
@@ -628,13 +633,14 @@ class GMMHMM(_emissions.BaseGMMHMM):
         self._weights_prior = np.broadcast_to(
             self.weights_prior, (nc, nm)).copy()
         self._means_prior = np.broadcast_to(
-            self.means_prior, (nc, nm, nf)).copy()
+            _utils.per_row(self.means_prior, nm, 2), (nc, nm, nf)).copy()
         self._means_weight = np.broadcast_to(
             self.means_weight, (nc, nm)).copy()
 
         if self.covariance_type == "full":
             self._covars_prior = np.broadcast_to(
-                self._covars_prior, (nc, nm, nf, nf)).copy()
+                _utils.per_row(self._covars_prior, nm, 3),
+                (nc, nm, nf, nf)).copy()
             self._covars_weight = np.broadcast_to(
                 self._covars_weight, (nc, nm)).copy()
         elif self.covariance_type == "tied":
@@ -644,9 +650,11 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 self._covars_weight, nc).copy()
         elif self.covariance_type == "diag":
             self._covars_prior = np.broadcast_to(
-                self._covars_prior, (nc, nm, nf)).copy()
+                _utils.per_row(self._covars_prior, nm, 2),
+                (nc, nm, nf)).copy()
             self._covars_weight = np.broadcast_to(
-                self._covars_weight, (nc, nm, nf)).copy()
+                _utils.per_row(self._covars_weight, nm, 2),
+                (nc, nm, nf)).copy()
         elif self.covariance_type == "spherical":
             self._covars_prior = np.broadcast_to(
                 self._covars_prior, (nc, nm)).copy()
@@ -1076,7 +1084,9 @@ class PoissonHMM(_emissions.BasePoissonHMM):
             # Based on: Hyvönen & Tolonen, "Bayesian Inference 2019"
             # section 3.2
             # https://vioshyvo.github.io/Bayesian_inference
-            alphas, betas = self.lambdas_prior, self.lambdas_weight
+            alphas, betas = (
+                _utils.per_row(prior, self.n_components, 2)
+                for prior in (self.lambdas_prior, self.lambdas_weight))
             n = stats['post'][:, None]
             # the same as kappa notation (more intuitive) but avoids divide by
             # 0, where:
-- 
2.43.0


From 0b488dd951a0b309a645f3ffa0ae2f9c3a74436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:49 +0000
Subject: [PATCH 28/28] fix: accumulate GMMHMM statistics in floats whatever
 the priors' type

---
 src/hmmlearn/_emissions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 3b48d3f..43cd699 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -228,9 +228,9 @@ class BaseGMMHMM(BaseHMM):
 
         if 'm' in self.params:
             lambdas, mus = self._means_weight, self._means_prior
-            stats['m_n'] = lambdas[:, :, None] * mus
+            stats['m_n'] = (lambdas[:, :, None] * mus).astype(float)
         if 'c' in self.params:
-            stats['c_n'] = np.zeros_like(self.covars_)
+            stats['c_n'] = np.zeros(self.covars_.shape)
 
         # These statistics are stored in arrays and updated in-place.
         # We accumulate chunks of data for multiple sequences (aka
-- 
2.43.0

