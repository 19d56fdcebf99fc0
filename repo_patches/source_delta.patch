From 5a7ef11736d35f39330154a38bc97ab0be96b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 01/34] fix: expand spherical covariances to one matrix per
 state

After initialization or fitting, spherical covariances are stored repeated
along the features; flattening them yielded n_components * n_features
matrices, so that covars_ had a wrong shape and sample() used the variance of
a wrong state.
---
 src/hmmlearn/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/utils.py b/src/hmmlearn/utils.py
index a080e56..5c70522 100644
--- a/src/hmmlearn/utils.py
+++ b/src/hmmlearn/utils.py
@@ -63,9 +63,11 @@ def fill_covars(covars, covariance_type='full', n_components=1, n_features=1):
     elif covariance_type == 'tied':
         return np.tile(covars, (n_components, 1, 1))
     elif covariance_type == 'spherical':
-        # Regardless of what is passed in, we flatten in
-        # and then expand it to the correct shape
-        covars = np.ravel(covars)
+        # Each component has a single variance, but it may be repeated along
+        # the features; keep one value per component and then expand it to the
+        # correct shape.
+        covars = np.atleast_1d(covars)
+        covars = covars.reshape(len(covars), -1)[:, 0]
         eye = np.eye(n_features)[np.newaxis, :, :]
         covars = covars[:, np.newaxis, np.newaxis]
         return eye * covars
-- 
2.43.0


From a5fa1caf0f3985c2c18e16e54a86c17aa255b8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 02/34] fix: accumulate mean statistics of GaussianHMM when
 only covars are fit

With 'c' but not 'm' in params, the covariance update used zeroed
occupation counts and observation sums, yielding meaningless covariances.
---
 src/hmmlearn/hmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index fec0a13..191723e 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -332,7 +332,8 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
                 f"covariance_type must be one of {COVARIANCE_TYPES}")
 
     def _needs_sufficient_statistics_for_mean(self):
-        return 'm' in self.params
+        # The covariance update also relies on these statistics.
+        return 'm' in self.params or 'c' in self.params
 
     def _needs_sufficient_statistics_for_covars(self):
         return 'c' in self.params
-- 
2.43.0


From d1e3310ec5d332fe39ab9469f02b8f2c7586069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 03/34] fix: draw GMMHMM means of small clusters from
 random_state

The global numpy generator was used instead, so that fits were not
reproducible for a given random_state.  Also make the drawing work with a
single feature, for which np.cov returns a 0-d array.
---
 src/hmmlearn/hmm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 191723e..f5aa4d3 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -537,8 +537,10 @@ class GMMHMM(_emissions.BaseGMMHMM):
         nf = self.n_features
         nm = self.n_mix
 
+        random_state = check_random_state(self.random_state)
+
         def compute_cv():
-            return np.cov(X.T) + self.min_covar * np.eye(nf)
+            return np.atleast_2d(np.cov(X.T)) + self.min_covar * np.eye(nf)
 
         # Default values for covariance prior parameters
         self._init_covar_priors()
@@ -562,9 +564,9 @@ class GMMHMM(_emissions.BaseGMMHMM):
             else:
                 if cv is None:
                     cv = compute_cv()
-                m_cluster = np.random.multivariate_normal(main_centroid,
-                                                          cov=cv,
-                                                          size=nm)
+                m_cluster = random_state.multivariate_normal(main_centroid,
+                                                             cov=cv,
+                                                             size=nm)
                 means.append(m_cluster)
 
         if self._needs_init("w", "weights_"):
-- 
2.43.0


From 6aa6534bcacd0e2ef677e2d46be20f702b000c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 04/34] fix: let variational HMMs fit a subset of the
 parameters

startprob_, transmat_ and emissionprob_ were only set when the corresponding
posterior was updated, so that e.g. params='te' failed with a NotFittedError
or AttributeError.
---
 src/hmmlearn/base.py | 12 ++++++------
 src/hmmlearn/vhmm.py |  7 ++++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 580b71a..0d91e84 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1230,14 +1230,14 @@ class VariationalBaseHMM(_AbstractHMM):
         """
         if 's' in self.params:
             self.startprob_posterior_ = self.startprob_prior_ + stats['start']
-            # For compatability in _AbstractHMM
-            self.startprob_ = (self.startprob_posterior_
-                               / self.startprob_posterior_.sum())
         if 't' in self.params:
             self.transmat_posterior_ = self.transmat_prior_ + stats['trans']
-            # For compatability in _AbstractHMM
-            self.transmat_ = (self.transmat_posterior_
-                              / self.transmat_posterior_.sum(axis=1)[:, None])
+        # For compatability in _AbstractHMM (also needed for the parameters
+        # that are kept fixed).
+        self.startprob_ = (self.startprob_posterior_
+                           / self.startprob_posterior_.sum())
+        self.transmat_ = (self.transmat_posterior_
+                          / self.transmat_posterior_.sum(axis=1)[:, None])
 
     def _compute_lower_bound(self, curr_logprob):
         """
diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 32f7bef..ab4658f 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -212,9 +212,10 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
         if "e" in self.params:
             self.emissionprob_posterior_ = (
                 self.emissionprob_prior_ + stats['obs'])
-            # Provide the normalized probabilities at the posterior median
-            div = self.emissionprob_posterior_.sum(axis=1)[:, None]
-            self.emissionprob_ = self.emissionprob_posterior_ / div
+        # Provide the normalized probabilities at the posterior median (also
+        # needed when they are kept fixed).
+        div = self.emissionprob_posterior_.sum(axis=1)[:, None]
+        self.emissionprob_ = self.emissionprob_posterior_ / div
 
     def _compute_lower_bound(self, log_prob):
         """Compute the lower bound of the model."""
-- 
2.43.0


From 46d3db63b5800d574a10a67963bd92cd0621b4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 05/34] fix: accept an array emissionprob_prior in
 VariationalCategoricalHMM

The documented (n_components, n_features) prior was used to build an invalid
argument of the Dirichlet initialization, which raised a ValueError.
---
 src/hmmlearn/vhmm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index ab4658f..ec5c69d 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -152,10 +152,11 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
                 emissionprob_init = self.emissionprob_prior
             self.emissionprob_prior_ = np.full(
                 (self.n_components, self.n_features), emissionprob_init)
-            self.emissionprob_posterior_ = random_state.dirichlet(
-                alpha=[emissionprob_init] * self.n_features,
-                size=self.n_components
-            ) * sum(lengths) / self.n_components
+            # One draw per state, as each state can have its own prior.
+            self.emissionprob_posterior_ = np.stack([
+                random_state.dirichlet(alpha)
+                for alpha in self.emissionprob_prior_
+            ]) * sum(lengths) / self.n_components
 
     def _estep_begin(self):
         super()._estep_begin()
-- 
2.43.0


From 0bf1255d2953bdc7e62ab1ca9bf223f525575ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 06/34] fix: reject non-positive sequence lengths

Zero lengths made the compiled kernels access out-of-bounds memory, and
negative ones silently dropped or repeated samples.
---
 src/hmmlearn/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/_utils.py b/src/hmmlearn/_utils.py
index 9f257d2..bbdeb65 100644
--- a/src/hmmlearn/_utils.py
+++ b/src/hmmlearn/_utils.py
@@ -18,6 +18,8 @@ def split_X_lengths(X, lengths):
     if lengths is None:
         return [X]
     else:
+        if np.any(np.less_equal(lengths, 0)):
+            raise ValueError(f"lengths array {lengths} must be positive")
         cs = np.cumsum(lengths)
         n_samples = len(X)
         if cs[-1] != n_samples:
-- 
2.43.0


From 395f61f0cda1e701c6b8f7bd068dd5a9fee8c516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 07/34] fix: reject negative symbols when scoring categorical
 HMMs

fit() already rejects them, but score(), decode() etc. silently used the
probability of a symbol counted from the end.
---
 src/hmmlearn/_emissions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index a697c11..61e57bd 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -81,6 +81,8 @@ class BaseCategoricalHMM(_AbstractHMM):
             warnings.warn("Inputs of shape other than (n_samples, 1) are "
                           "deprecated.", DeprecationWarning)
             X = np.concatenate(X)[:, None]
+        if X.min() < 0:  # Would silently index from the end.
+            raise ValueError("Symbols should be nonnegative")
         return self.emissionprob_[:, X.squeeze(1)].T
 
     def _initialize_sufficient_statistics(self):
-- 
2.43.0


From 77962eda296649c2caa3a8ef46d191257d79916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 08/34] fix: reject samples with a wrong number of features
 when scoring

A single feature was silently broadcast against all the features of Gaussian,
Gaussian mixture and Poisson models.
---
 src/hmmlearn/_emissions.py | 8 ++++++++
 src/hmmlearn/stats.py      | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 61e57bd..796cdad 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -373,6 +373,12 @@ class BaseMultinomialHMM(BaseHMM):
 
 class BasePoissonHMM(BaseHMM):
 
+    def _check_n_features(self, X):
+        if X.shape[1] != self.lambdas_.shape[1]:  # Would silently broadcast.
+            raise ValueError(
+                f"X has {X.shape[1]} features, but expected "
+                f"{self.lambdas_.shape[1]}")
+
     def _get_n_fit_scalars_per_param(self):
         nc = self.n_components
         nf = self.n_features
@@ -383,12 +389,14 @@ class BasePoissonHMM(BaseHMM):
         }
 
     def _compute_likelihood(self, X):
+        self._check_n_features(X)
         probs = np.empty((len(X), self.n_components))
         for c in range(self.n_components):
             probs[:, c] = poisson.pmf(X, self.lambdas_[c]).prod(axis=1)
         return probs
 
     def _compute_log_likelihood(self, X):
+        self._check_n_features(X)
         logprobs = np.empty((len(X), self.n_components))
         for c in range(self.n_components):
             logprobs[:, c] = poisson.logpmf(X, self.lambdas_[c]).sum(axis=1)
diff --git a/src/hmmlearn/stats.py b/src/hmmlearn/stats.py
index 7a01b8c..92f1b5f 100644
--- a/src/hmmlearn/stats.py
+++ b/src/hmmlearn/stats.py
@@ -39,6 +39,10 @@ def log_multivariate_normal_density(X, means, covars, covariance_type='diag'):
         'tied': _log_multivariate_normal_density_tied,
         'diag': _log_multivariate_normal_density_diag,
         'full': _log_multivariate_normal_density_full}
+    if np.shape(X)[1] != np.shape(means)[1]:  # Would silently broadcast.
+        raise ValueError(
+            f"X has {np.shape(X)[1]} features, but expected "
+            f"{np.shape(means)[1]}")
     return log_multivariate_normal_density_dict[covariance_type](
         X, means, covars
     )
-- 
2.43.0


From c6e0bd285aeeac827e213fe9e916e21d1dfb13ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 09/34] fix: count the mixture weights of every state of a
 GMMHMM

Each of the n_components states has its own n_mix - 1 free weights; aic() and
bic() only counted those of a single state.
---
 src/hmmlearn/_emissions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 796cdad..a491aba 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -199,7 +199,7 @@ class BaseGMMHMM(BaseHMM):
                 "full": nc * nm * nf * (nf + 1) // 2,
                 "tied": nc * nf * (nf + 1) // 2,
             }[self.covariance_type],
-            "w": nm - 1,
+            "w": nc * (nm - 1),
         }
 
     def _compute_log_weighted_gaussian_densities(self, X, i_comp):
-- 
2.43.0


From d650fa6628b9f826fcfa53682f5fbf9f739fd454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:39 +0000
Subject: [PATCH 10/34] fix: default spherical covariance prior of GMMHMM is
 flat

The default must cancel out the n_features + 2 terms of the denominator of the
covariance update (as it does for the other covariance types) for the update
to maximize the likelihood; it only did so if n_mix == n_features.
---
 src/hmmlearn/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index f5aa4d3..44e083e 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -611,7 +611,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 self.covars_weight = 0.0
         elif self.covariance_type == "spherical":
             if self.covars_prior is None:
-                self.covars_prior = -(self.n_mix + 2.0) / 2.0
+                self.covars_prior = -(self.n_features + 2.0) / 2.0
             if self.covars_weight is None:
                 self.covars_weight = 0.0
 
-- 
2.43.0


From 0e397e31d7a40f656de1bb87f25f86468f1ab818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 11/34] fix: weigh the PoissonHMM prior by the observations of
 each state

The posterior used the total number of observations as if all of them had been
assigned to every state, so that the prior was weighted wrongly and EM with a
prior did not increase the posterior.  Without prior nothing changes.
---
 src/hmmlearn/hmm.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 44e083e..1cd0d5f 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -1069,10 +1069,9 @@ class PoissonHMM(_emissions.BasePoissonHMM):
             # section 3.2
             # https://vioshyvo.github.io/Bayesian_inference
             alphas, betas = self.lambdas_prior, self.lambdas_weight
-            n = stats['post'].sum()
-            y_bar = stats['obs'] / stats['post'][:, None]
-            # the same as kappa notation (more intuitive) but avoids divide by
-            # 0, where:
             # kappas = betas / (betas + n)
-            # self.lambdas_ = kappas * (alphas / betas) + (1 - kappas) * y_bar
-            self.lambdas_ = (alphas + n * y_bar) / (betas + n)
+            # lambdas = kappas * (alphas / betas) + (1 - kappas) * y_bar
+            # where n is the (expected) number of observations in each state
+            # and y_bar is their mean; rewritten to avoid dividing by 0.
+            n = stats['post'][:, None]
+            self.lambdas_ = (alphas + stats['obs']) / (betas + n)
-- 
2.43.0


From a798b065e4f3b528bd947aa6607c90280ac06e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 12/34] fix: do not overwrite the random_state parameter during
 fit

CategoricalHMM, MultinomialHMM and PoissonHMM replaced the seed they were
constructed with by a generator, so that fitting again gave other results and
get_params() and clone() no longer returned the seed.  Also initialize the
emissionprob_ of a MultinomialHMM if they are missing, as for other models.
---
 src/hmmlearn/hmm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 1cd0d5f..de8ec85 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -128,10 +128,10 @@ class CategoricalHMM(_emissions.BaseCategoricalHMM, BaseHMM):
     def _init(self, X, lengths=None):
         super()._init(X, lengths)
 
-        self.random_state = check_random_state(self.random_state)
+        random_state = check_random_state(self.random_state)
 
         if self._needs_init('e', 'emissionprob_'):
-            self.emissionprob_ = self.random_state.rand(
+            self.emissionprob_ = random_state.rand(
                 self.n_components, self.n_features)
             normalize(self.emissionprob_, axis=1)
 
@@ -920,9 +920,9 @@ class MultinomialHMM(_emissions.BaseMultinomialHMM):
 
     def _init(self, X, lengths=None):
         super()._init(X, lengths=None)
-        self.random_state = check_random_state(self.random_state)
-        if 'e' in self.init_params:
-            self.emissionprob_ = self.random_state \
+        random_state = check_random_state(self.random_state)
+        if self._needs_init('e', 'emissionprob_'):
+            self.emissionprob_ = random_state \
                 .rand(self.n_components, self.n_features)
             normalize(self.emissionprob_, axis=1)
 
@@ -1039,14 +1039,14 @@ class PoissonHMM(_emissions.BasePoissonHMM):
 
     def _init(self, X, lengths=None):
         super()._init(X, lengths)
-        self.random_state = check_random_state(self.random_state)
+        random_state = check_random_state(self.random_state)
 
         mean_X = X.mean()
         var_X = X.var()
 
         if self._needs_init("l", "lambdas_"):
             # initialize with method of moments based on X
-            self.lambdas_ = self.random_state.gamma(
+            self.lambdas_ = random_state.gamma(
                 shape=mean_X**2 / var_X,
                 scale=var_X / mean_X,  # numpy uses theta = 1 / beta
                 size=(self.n_components, self.n_features))
-- 
2.43.0


From 0b2272d24867c366802ea64761be773c35f694f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 13/34] fix: make set_params update the convergence monitor

The monitor is created by the constructor, so that tol, n_iter and verbose
changed by set_params() (as done e.g. by a grid search) were ignored.
---
 src/hmmlearn/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 0d91e84..c59f65b 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -180,6 +180,15 @@ class _AbstractHMM(BaseEstimator):
         self.implementation = implementation
         self.random_state = random_state
 
+    def set_params(self, **params):
+        super().set_params(**params)
+        # The monitor has its own copy of these parameters.
+        for name in {"tol", "n_iter", "verbose"} & {*params}:
+            setattr(self.monitor_, name, params[name])
+        return self
+
+    set_params.__doc__ = BaseEstimator.set_params.__doc__
+
     def score_samples(self, X, lengths=None):
         """
         Compute the log probability under the model and compute posteriors.
-- 
2.43.0


From db194a7346d346b07ba05ea31641865153dd7d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 14/34] fix: cluster the data of a GMMHMM only to initialize
 its means

fit() failed with fewer samples than states even if nothing had to be
initialized.
---
 src/hmmlearn/hmm.py | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index de8ec85..b71f46a 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -546,33 +546,33 @@ class GMMHMM(_emissions.BaseGMMHMM):
         self._init_covar_priors()
         self._fix_priors_shape()
 
-        main_kmeans = cluster.KMeans(n_clusters=nc,
-                                     random_state=self.random_state,
-                                     n_init=10)  # sklearn >=1.2 compat.
         cv = None  # covariance matrix
-        labels = main_kmeans.fit_predict(X)
-        main_centroid = np.mean(main_kmeans.cluster_centers_, axis=0)
-        means = []
-        for label in range(nc):
-            kmeans = cluster.KMeans(n_clusters=nm,
-                                    random_state=self.random_state,
-                                    n_init=10)  # sklearn >=1.2 compat.
-            X_cluster = X[np.where(labels == label)]
-            if X_cluster.shape[0] >= nm:
-                kmeans.fit(X_cluster)
-                means.append(kmeans.cluster_centers_)
-            else:
-                if cv is None:
-                    cv = compute_cv()
-                m_cluster = random_state.multivariate_normal(main_centroid,
-                                                             cov=cv,
-                                                             size=nm)
-                means.append(m_cluster)
 
         if self._needs_init("w", "weights_"):
             self.weights_ = np.full((nc, nm), 1 / nm)
 
         if self._needs_init("m", "means_"):
+            main_kmeans = cluster.KMeans(n_clusters=nc,
+                                         random_state=self.random_state,
+                                         n_init=10)  # sklearn >=1.2 compat.
+            labels = main_kmeans.fit_predict(X)
+            main_centroid = np.mean(main_kmeans.cluster_centers_, axis=0)
+            means = []
+            for label in range(nc):
+                kmeans = cluster.KMeans(n_clusters=nm,
+                                        random_state=self.random_state,
+                                        n_init=10)  # sklearn >=1.2 compat.
+                X_cluster = X[np.where(labels == label)]
+                if X_cluster.shape[0] >= nm:
+                    kmeans.fit(X_cluster)
+                    means.append(kmeans.cluster_centers_)
+                else:
+                    if cv is None:
+                        cv = compute_cv()
+                    m_cluster = random_state.multivariate_normal(main_centroid,
+                                                                 cov=cv,
+                                                                 size=nm)
+                    means.append(m_cluster)
             self.means_ = np.stack(means)
 
         if self._needs_init("c", "covars_"):
-- 
2.43.0


From 809e7e79ed08104d99ec4a2e2094e056d6118ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 15/34] fix: let covars_ of a GaussianHMM be read before the
 model is used

---
 src/hmmlearn/hmm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index b71f46a..b059dbc 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -294,8 +294,13 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
     @property
     def covars_(self):
         """Return covars as a full matrix."""
+        # n_features is only set by _check() or fit(), and only needed here to
+        # expand spherical covariances.
+        n_features = (self.n_features if hasattr(self, "n_features")
+                      else np.shape(self.means_)[1]
+                      if self.covariance_type == "spherical" else None)
         return fill_covars(self._covars_, self.covariance_type,
-                           self.n_components, self.n_features)
+                           self.n_components, n_features)
 
     @covars_.setter
     def covars_(self, covars):
-- 
2.43.0


From 80bd3c4c3ba0880e4e78c4788b832bc6344da7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:35 +0000
Subject: [PATCH 16/34] fix: let covars_ of a VariationalGaussianHMM be read
 before fit

---
 src/hmmlearn/vhmm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index ec5c69d..c752a66 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -439,8 +439,13 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
     @property
     def covars_(self):
         """Return covars as a full matrix."""
+        # n_features is only set by fit(), and only needed here to expand
+        # spherical covariances.
+        n_features = (self.n_features if hasattr(self, "n_features")
+                      else np.shape(self.means_)[1]
+                      if self.covariance_type == "spherical" else None)
         return fill_covars(self._covars_, self.covariance_type,
-                           self.n_components, self.n_features)
+                           self.n_components, n_features)
 
     @covars_.setter
     def covars_(self, covars):
-- 
2.43.0


From 3a286f467607eaaefaf11c683d4d8796ff9899f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 17/34] fix: start VariationalGaussianHMM from valid degrees of
 freedom

---
 src/hmmlearn/vhmm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index c752a66..d07f117 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -515,14 +515,17 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                         (self.n_components,), self.n_features)
                 else:
                     self.dof_prior_ = self.dof_prior
-                self.dof_posterior_ = np.copy(cluster_counts)
+                # Wishart distributions need dof > n_features - 1.
+                self.dof_posterior_ = np.maximum(
+                    cluster_counts, self.n_features)
 
             elif self.covariance_type == "tied":
                 if self.dof_prior is None:
                     self.dof_prior_ = self.n_features
                 else:
                     self.dof_prior_ = self.dof_prior
-                self.dof_posterior_ = cluster_counts.sum()
+                self.dof_posterior_ = max(
+                    cluster_counts.sum(), self.n_features)
 
             # Covariance posterior comes from the estimate of the data
             # We store and update both W_k and scale_posterior_,
-- 
2.43.0


From e70f920bc6b488ca328a066ef747f92c4f34a273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 18/34] fix: compute aic and bic of models with assigned
 parameters

---
 src/hmmlearn/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index c59f65b..948e85b 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1006,8 +1006,9 @@ class BaseHMM(_AbstractHMM):
         aic : float
             The lower the better.
         """
+        log_prob = self.score(X, lengths=lengths)  # Also sets n_features.
         n_params = sum(self._get_n_fit_scalars_per_param().values())
-        return -2 * self.score(X, lengths=lengths) + 2 * n_params
+        return -2 * log_prob + 2 * n_params
 
     def bic(self, X, lengths=None):
         """
@@ -1030,8 +1031,9 @@ class BaseHMM(_AbstractHMM):
         bic : float
             The lower the better.
         """
+        log_prob = self.score(X, lengths=lengths)  # Also sets n_features.
         n_params = sum(self._get_n_fit_scalars_per_param().values())
-        return -2 * self.score(X, lengths=lengths) + n_params * np.log(len(X))
+        return -2 * log_prob + n_params * np.log(len(X))
 
 
 _BaseHMM = BaseHMM  # Backcompat name, will be deprecated in the future.
-- 
2.43.0


From 0e5aac1cb44ba3b09cf048907d4f2204a2cd8415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 19/34] fix: start variational posteriors at least at their
 priors

---
 src/hmmlearn/base.py | 13 ++++++++-----
 src/hmmlearn/vhmm.py |  6 ++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 948e85b..edbfe61 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1082,8 +1082,11 @@ class VariationalBaseHMM(_AbstractHMM):
                 startprob_init = self.startprob_prior
 
             self.startprob_prior_ = np.full(nc, startprob_init)
-            self.startprob_posterior_ = random_state.dirichlet(
-                np.full(nc, uniform_prior)) * len(lengths)
+            # Random counts may be arbitrarily small, but posteriors are never
+            # below the prior.
+            self.startprob_posterior_ = (
+                self.startprob_prior_ + random_state.dirichlet(
+                    np.full(nc, uniform_prior)) * len(lengths))
 
         if (self._needs_init("t", "transmat_posterior_")
                 or self._needs_init("t", "transmat_prior_")):
@@ -1093,9 +1096,9 @@ class VariationalBaseHMM(_AbstractHMM):
                 transmat_init = self.transmat_prior
             self.transmat_prior_ = np.full(
                 (nc, nc), transmat_init)
-            self.transmat_posterior_ = random_state.dirichlet(
-                np.full(nc, uniform_prior), size=nc)
-            self.transmat_posterior_ *= sum(lengths) / nc
+            self.transmat_posterior_ = (
+                self.transmat_prior_ + random_state.dirichlet(
+                    np.full(nc, uniform_prior), size=nc) * sum(lengths) / nc)
 
         n_fit_scalars_per_param = self._get_n_fit_scalars_per_param()
         if n_fit_scalars_per_param is not None:
diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index d07f117..d997a2c 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -152,8 +152,10 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
                 emissionprob_init = self.emissionprob_prior
             self.emissionprob_prior_ = np.full(
                 (self.n_components, self.n_features), emissionprob_init)
-            # One draw per state, as each state can have its own prior.
-            self.emissionprob_posterior_ = np.stack([
+            # One draw per state, as each state can have its own prior.  Draws
+            # from sparse priors can be arbitrarily small, but posteriors are
+            # never below the prior.
+            self.emissionprob_posterior_ = self.emissionprob_prior_ + np.stack([
                 random_state.dirichlet(alpha)
                 for alpha in self.emissionprob_prior_
             ]) * sum(lengths) / self.n_components
-- 
2.43.0


From 72385bd8af4686a52e338cfa2b36b35150669f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 20/34] fix: check the shape of GaussianHMM means

---
 src/hmmlearn/hmm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index b059dbc..906beb3 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -330,6 +330,9 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
         super()._check()
 
         self.means_ = np.asarray(self.means_)
+        if self.means_.ndim != 2 or len(self.means_) != self.n_components:
+            raise ValueError(
+                "means_ must have shape (n_components, n_features)")
         self.n_features = self.means_.shape[1]
 
         if self.covariance_type not in COVARIANCE_TYPES:
-- 
2.43.0


From dd262a3bdc4c8f2d2d8281f3a23a7001260411ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 21/34] fix: check that MultinomialHMM emission probabilities
 sum to 1

---
 src/hmmlearn/hmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 906beb3..1d673e7 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -943,6 +943,7 @@ class MultinomialHMM(_emissions.BaseMultinomialHMM):
                 "emissionprob_ must have shape (n_components, n_features)")
         else:
             self.n_features = n_features
+        self._check_sum_1("emissionprob_")
         if self.n_trials is None:
             raise ValueError("n_trials must be set")
 
-- 
2.43.0


From e22693ec603c536e851bd1c76d46ba59235f52e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 22/34] fix: check start and transition posteriors of
 VariationalGaussianHMM

---
 src/hmmlearn/vhmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index d997a2c..6d81765 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -602,11 +602,12 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
             If any of the parameters are invalid, e.g. if :attr:`startprob_`
             don't sum to 1.
         """
-
         if self.covariance_type not in COVARIANCE_TYPES:
             raise ValueError(
                 f"{self.covariance_type} is invalid")
 
+        super()._check()
+
         means_shape = (self.n_components, self.n_features)
 
         self.means_prior_ = np.asarray(self.means_prior_, dtype=float)
-- 
2.43.0


From f713e81e0fea5b496cc30848280ad47fd5f4263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:38 +0000
Subject: [PATCH 23/34] fix: check the shape of GaussianHMM covariances

---
 src/hmmlearn/_utils.py | 4 ++--
 src/hmmlearn/hmm.py    | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/_utils.py b/src/hmmlearn/_utils.py
index bbdeb65..7c7e414 100644
--- a/src/hmmlearn/_utils.py
+++ b/src/hmmlearn/_utils.py
@@ -45,13 +45,13 @@ def _validate_covars(covars, covariance_type, n_components):
             raise ValueError("'tied' covars must be symmetric, "
                              "positive-definite")
     elif covariance_type == 'diag':
-        if len(covars.shape) != 2:
+        if len(covars.shape) != 2 or len(covars) != n_components:
             raise ValueError("'diag' covars must have shape "
                              "(n_components, n_dim)")
         elif np.any(covars <= 0):
             raise ValueError("'diag' covars must be positive")
     elif covariance_type == 'full':
-        if len(covars.shape) != 3:
+        if len(covars.shape) != 3 or len(covars) != n_components:
             raise ValueError("'full' covars must have shape "
                              "(n_components, n_dim, n_dim)")
         elif covars.shape[1] != covars.shape[2]:
diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 1d673e7..5fb2b5e 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -338,6 +338,11 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
         if self.covariance_type not in COVARIANCE_TYPES:
             raise ValueError(
                 f"covariance_type must be one of {COVARIANCE_TYPES}")
+        if self.covars_.shape != (
+                self.n_components, self.n_features, self.n_features):
+            raise ValueError(
+                f"covars_ do not have the same number of features as means_ "
+                f"({self.n_features})")
 
     def _needs_sufficient_statistics_for_mean(self):
         # The covariance update also relies on these statistics.
-- 
2.43.0


From 988c25fb659ece747ae0da09dfa2886689786093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 24/34] fix: do not read or write out of bounds for empty frame
 probabilities

---
 ext/_hmmc.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ext/_hmmc.cpp b/ext/_hmmc.cpp
index 3a4a1d3..a025ef2 100644
--- a/ext/_hmmc.cpp
+++ b/ext/_hmmc.cpp
@@ -6,6 +6,14 @@
 namespace py = pybind11;
 using ssize_t = Py_ssize_t;
 
+void check_not_empty(ssize_t ns, ssize_t nc)
+{
+  if (ns < 1 || nc < 1) {
+    throw std::invalid_argument{
+      "at least one sample and one component are required"};
+  }
+}
+
 double logaddexp(double a, double b)
 {
   return
@@ -54,6 +62,7 @@ std::tuple<double, py::array_t<double>, py::array_t<double>> forward_scaling(
   auto transmat = transmat_.unchecked<2>();
   auto frameprob = frameprob_.unchecked<2>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
+  check_not_empty(ns, nc);
   if (startprob.shape(0) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
@@ -112,6 +121,7 @@ std::tuple<double, py::array_t<double>> forward_log(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
+  check_not_empty(ns, nc);
   if (log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
@@ -148,6 +158,7 @@ py::array_t<double> backward_scaling(
   auto frameprob = frameprob_.unchecked<2>();
   auto scaling = scaling_.unchecked<1>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
+  check_not_empty(ns, nc);
   if (startprob.shape(0) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc
       || scaling.shape(0) != ns) {
@@ -182,6 +193,7 @@ py::array_t<double> backward_log(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
+  check_not_empty(ns, nc);
   if (log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
@@ -215,6 +227,7 @@ py::array_t<double> compute_scaling_xi_sum(
   auto bwd = bwdlattice_.unchecked<2>();
   auto frameprob = frameprob_.unchecked<2>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
+  check_not_empty(ns, nc);
   if (fwd.shape(0) != ns || fwd.shape(1) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc
       || bwd.shape(0) != ns || bwd.shape(1) != nc) {
@@ -249,6 +262,7 @@ py::array_t<double> compute_log_xi_sum(
   auto bwd = bwdlattice_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
+  check_not_empty(ns, nc);
   if (fwd.shape(0) != ns || fwd.shape(1) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc
       || bwd.shape(0) != ns || bwd.shape(1) != nc) {
@@ -286,6 +300,7 @@ std::tuple<double, py::array_t<ssize_t>> viterbi(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
+  check_not_empty(ns, nc);
   if (log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
-- 
2.43.0


From 7d205aee3a3db68a4dc5ee08ce170c4b34e44136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 25/34] fix: accept array-likes for the parameters of GMMHMM

---
 src/hmmlearn/hmm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 5fb2b5e..b1ceb3c 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -665,6 +665,9 @@ class GMMHMM(_emissions.BaseGMMHMM):
 
     def _check(self):
         super()._check()
+        self.weights_ = np.asarray(self.weights_)
+        self.means_ = np.asarray(self.means_)
+        self.covars_ = np.asarray(self.covars_)
         if not hasattr(self, "n_features"):
             self.n_features = self.means_.shape[2]
         nc = self.n_components
-- 
2.43.0


From a6e22f4f988a829490bcfe15e0cd295006b82752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 26/34] fix: compute Gaussian statistics of small integer data
 in double precision

---
 src/hmmlearn/_emissions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index a491aba..b8d4c42 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -156,7 +156,8 @@ class BaseGaussianHMM(_AbstractHMM):
 
         if self._needs_sufficient_statistics_for_covars():
             if self.covariance_type in ('spherical', 'diag'):
-                stats['obs**2'] += posteriors.T @ X**2
+                # Small integer or float types could overflow.
+                stats['obs**2'] += posteriors.T @ np.square(X, dtype=float)
             elif self.covariance_type in ('tied', 'full'):
                 # posteriors: (nt, nc); obs: (nt, nf); obs: (nt, nf)
                 # -> (nc, nf, nf)
-- 
2.43.0


From c2b1c2d1b5d23596a2a2697aad278d053c99c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 27/34] fix: accept integer covariances and priors in GMMHMM

---
 src/hmmlearn/_emissions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index b8d4c42..f88f812 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -229,9 +229,9 @@ class BaseGMMHMM(BaseHMM):
 
         if 'm' in self.params:
             lambdas, mus = self.means_weight, self.means_prior
-            stats['m_n'] = lambdas[:, :, None] * mus
+            stats['m_n'] = np.asarray(lambdas[:, :, None] * mus, dtype=float)
         if 'c' in self.params:
-            stats['c_n'] = np.zeros_like(self.covars_)
+            stats['c_n'] = np.zeros(self.covars_.shape)
 
         # These statistics are stored in arrays and updated in-place.
         # We accumulate chunks of data for multiple sequences (aka
-- 
2.43.0


From f284d79dbe60490c57d5ca59fcfbef2a65a3ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:31 +0000
Subject: [PATCH 28/34] fix: initialize Poisson rates of constant or sparse
 data with positive values

---
 src/hmmlearn/hmm.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index b1ceb3c..3255284 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -1063,10 +1063,16 @@ class PoissonHMM(_emissions.BasePoissonHMM):
 
         if self._needs_init("l", "lambdas_"):
             # initialize with method of moments based on X
-            self.lambdas_ = random_state.gamma(
-                shape=mean_X**2 / var_X,
-                scale=var_X / mean_X,  # numpy uses theta = 1 / beta
-                size=(self.n_components, self.n_features))
+            size = (self.n_components, self.n_features)
+            if var_X > 0:
+                self.lambdas_ = random_state.gamma(
+                    shape=mean_X**2 / var_X,
+                    scale=var_X / mean_X,  # numpy uses theta = 1 / beta
+                    size=size)
+            else:  # Limit of the above.
+                self.lambdas_ = np.full(size, mean_X)
+            # Draws can underflow to 0, which would exclude positive counts.
+            self.lambdas_ = np.maximum(self.lambdas_, np.finfo(float).tiny)
 
     def _check(self):
         super()._check()
-- 
2.43.0


From 9a27247529dd0f9bf14b5d2ea6e3f35607f41c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 29/34] fix: sum lengths of narrow integer types without
 overflow

The initial transition posteriors of variational models were computed from
a total of lengths that overflows for e.g. int8 arrays, and could be
negative.
---
 src/hmmlearn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index edbfe61..597a738 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1098,7 +1098,7 @@ class VariationalBaseHMM(_AbstractHMM):
                 (nc, nc), transmat_init)
             self.transmat_posterior_ = (
                 self.transmat_prior_ + random_state.dirichlet(
-                    np.full(nc, uniform_prior), size=nc) * sum(lengths) / nc)
+                    np.full(nc, uniform_prior), size=nc) * np.sum(lengths) / nc)
 
         n_fit_scalars_per_param = self._get_n_fit_scalars_per_param()
         if n_fit_scalars_per_param is not None:
-- 
2.43.0


From 314ccee5eba20c5428f3802596e5a618ad009278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 30/34] fix: sum lengths of narrow integer types in
 VariationalCategoricalHMM

Like the previous commit, for the initial emission posteriors.
---
 src/hmmlearn/vhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 6d81765..7b31826 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -158,7 +158,7 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
             self.emissionprob_posterior_ = self.emissionprob_prior_ + np.stack([
                 random_state.dirichlet(alpha)
                 for alpha in self.emissionprob_prior_
-            ]) * sum(lengths) / self.n_components
+            ]) * np.sum(lengths) / self.n_components
 
     def _estep_begin(self):
         super()._estep_begin()
-- 
2.43.0


From 0d928493272e55ff3c46da830d6cb7699d6e25cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 31/34] fix: raise on overflow in the scaling passes instead of
 returning NaN posteriors

---
 ext/_hmmc.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ext/_hmmc.cpp b/ext/_hmmc.cpp
index a025ef2..77b77d1 100644
--- a/ext/_hmmc.cpp
+++ b/ext/_hmmc.cpp
@@ -83,6 +83,10 @@ std::tuple<double, py::array_t<double>, py::array_t<double>> forward_scaling(
       throw std::range_error{"forward pass failed with underflow; "
                              "consider using implementation='log' instead"};
     }
+    if (std::isinf(sum)) {
+      throw std::range_error{"forward pass failed with overflow; "
+                             "consider using implementation='log' instead"};
+    }
     auto scale = scaling(0) = 1. / sum;
     log_prob -= std::log(scale);
     for (auto i = 0; i < nc; ++i) {
@@ -100,6 +104,10 @@ std::tuple<double, py::array_t<double>, py::array_t<double>> forward_scaling(
         throw std::range_error{"forward pass failed with underflow; "
                                "consider using implementation='log' instead"};
       }
+      if (std::isinf(sum)) {
+        throw std::range_error{"forward pass failed with overflow; "
+                               "consider using implementation='log' instead"};
+      }
       auto scale = scaling(t) = 1. / sum;
       log_prob -= std::log(scale);
       for (auto j = 0; j < nc; ++j) {
@@ -177,6 +185,10 @@ py::array_t<double> backward_scaling(
         bwd(t, i) += transmat(i, j) * frameprob(t + 1, j) * bwd(t + 1, j);
       }
       bwd(t, i) *= scaling(t);
+      if (!std::isfinite(bwd(t, i))) {
+        throw std::range_error{"backward pass failed with overflow; "
+                               "consider using implementation='log' instead"};
+      }
     }
   }
   return bwdlattice_;
-- 
2.43.0


From 1aa8dcc5573c83bffd4ce73875b350c79f4dcd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:10 +0000
Subject: [PATCH 32/34] fix: do not overflow n_features of CategoricalHMM for
 narrow integer data

---
 src/hmmlearn/_emissions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index f88f812..4db4aaf 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -65,7 +65,8 @@ class BaseCategoricalHMM(_AbstractHMM):
                     f"Largest symbol is {X.max()} but the model only emits "
                     f"symbols up to {self.n_features - 1}")
         else:
-            self.n_features = X.max() + 1
+            # Small integer types could overflow.
+            self.n_features = int(X.max()) + 1
 
     def _get_n_fit_scalars_per_param(self):
         nc = self.n_components
-- 
2.43.0


From 029989bc875f8df2eed5e59cce8ea3f7cd39a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 33/34] fix: reject boolean symbols in CategoricalHMM scoring
 instead of using them as a mask

---
 src/hmmlearn/_emissions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 4db4aaf..02b17d0 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -82,6 +82,8 @@ class BaseCategoricalHMM(_AbstractHMM):
             warnings.warn("Inputs of shape other than (n_samples, 1) are "
                           "deprecated.", DeprecationWarning)
             X = np.concatenate(X)[:, None]
+        if X.dtype == bool:  # Would silently be used as a mask.
+            raise ValueError("Symbols should be integers")
         if X.min() < 0:  # Would silently index from the end.
             raise ValueError("Symbols should be nonnegative")
         return self.emissionprob_[:, X.squeeze(1)].T
-- 
2.43.0


From 0fc267429659f73bdf63eb395949bec914be69a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:40 +0000
Subject: [PATCH 34/34] fix: reject sample() of less than one sample or from an
 invalid state

---
 src/hmmlearn/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 597a738..a8dc74e 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -436,6 +436,13 @@ class _AbstractHMM(BaseEstimator):
         check_is_fitted(self, "startprob_")
         self._check()
 
+        if n_samples < 1:
+            raise ValueError(f"n_samples must be positive, got {n_samples}")
+        if (currstate is not None
+                and not 0 <= currstate < self.n_components):
+            raise ValueError(
+                f"currstate must be a state in 0..{self.n_components - 1}, "
+                f"got {currstate}")
         if random_state is None:
             random_state = self.random_state
         random_state = check_random_state(random_state)
-- 
2.43.0

