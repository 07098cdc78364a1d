From e9177c5924758149328d588b960e0fe1b27b58ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 01/39] fix: intersection keeps supports two-dimensional for
 one feature or one support

---
 src/pyuoi/linear_model/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/utils.py b/src/pyuoi/linear_model/utils.py
index 6b26a16..9fd0ce2 100644
--- a/src/pyuoi/linear_model/utils.py
+++ b/src/pyuoi/linear_model/utils.py
@@ -135,10 +135,10 @@ def intersection(coefs, selection_thresholds=None):
 
     # unravel the dimension corresponding to selection thresholds
 
-    supports = np.squeeze(np.reshape(
+    supports = np.reshape(
         supports,
         (n_selection_thresholds * n_reg_params, n_features)
-    ))
+    )
 
     supports = np.unique(supports, axis=0)
 
-- 
2.43.0


From 368eff58535e62b6aef4664a7097e9783a687bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 02/39] fix: drop the previous solution between bootstraps
 instead of scaling it by zero

Scaling keeps the old shape and turns an infinite intercept into NaN.
---
 src/pyuoi/linear_model/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index ca93d16..53492ad 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -277,10 +277,9 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
                 my_reg_params = self.reg_params_
             # Never warm start across bootstraps
             if (curr_boot_idx != boot_idx):
-                if hasattr(self._selection_lm, 'coef_'):
-                    self._selection_lm.coef_ *= 0.
-                if hasattr(self._selection_lm, 'intercept_'):
-                    self._selection_lm.intercept_ *= 0.
+                for attr in ('coef_', 'intercept_'):
+                    if hasattr(self._selection_lm, attr):
+                        delattr(self._selection_lm, attr)
             curr_boot_idx = boot_idx
 
             # draw a resampled bootstrap
-- 
2.43.0


From 7abd0684be8db09a1340e8ae19c31921ff933f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 03/39] fix: intercept back-transformation of standardized
 generalized linear models

---
 src/pyuoi/linear_model/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 53492ad..1a71d98 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -717,8 +717,7 @@ class AbstractUoIGeneralizedLinearRegressor(AbstractUoILinearModel,
         super()._post_fit(X, y)
         if self.standardize and self.fit_intercept:
             sX = self._X_scaler
-            self.intercept_ += np.dot(sX.mean_ * sX.scale_,
-                                      self.coef_.T)
+            self.intercept_ -= np.dot(sX.mean_, self.coef_.T)
 
     def intersect(self, coef, thresholds):
         """Intersect coefficients accross all thresholds.
-- 
2.43.0


From f0f6e0ea9108c7ae7a5fde4b7dbb35bd4cfa21f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 04/39] fix: UoI_Poisson honours standardize, max_iter and tol

---
 src/pyuoi/linear_model/poisson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 3fa3103..f2f14e6 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -477,6 +477,9 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             estimation_target=estimation_target,
             copy_X=copy_X,
             fit_intercept=fit_intercept,
+            standardize=standardize,
+            max_iter=max_iter,
+            tol=tol,
             random_state=random_state,
             comm=comm,
             logger=logger)
-- 
2.43.0


From 8c622287ab3cf7ee32fac42759d7b358e98ec7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 05/39] fix: UoI_L1Logistic records max_iter and tol

---
 src/pyuoi/linear_model/logistic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index f3b1da7..68e160d 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -127,6 +127,8 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
             fit_intercept=fit_intercept,
             standardize=standardize,
             shared_support=shared_support,
+            max_iter=max_iter,
+            tol=tol,
             comm=comm,
             logger=logger)
         self.n_C = n_C
-- 
2.43.0


From 8ef47a863888e4cacaeacd16aa1f8002f4637e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 06/39] fix: do not center features when no intercept is
 fitted, and undo the centering

Poisson, UoI_Poisson and MaskedCoefLogisticRegression centered X even with
fit_intercept=False, and MaskedCoefLogisticRegression never moved the
centering into the intercept, so predictions on raw data were off.
---
 src/pyuoi/linear_model/logistic.py | 4 +++-
 src/pyuoi/linear_model/poisson.py  | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 68e160d..b3992f0 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -439,7 +439,7 @@ class MaskedCoefLogisticRegression(LogisticRegression):
 
     def _pre_fit(self, X, y):
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         le = LabelEncoder()
         y = le.fit_transform(y)
@@ -458,6 +458,8 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         if self.standardize:
             sX = self._X_scaler
             self.coef_ /= sX.scale_[np.newaxis]
+            if self.fit_intercept:
+                self.intercept_ -= np.dot(sX.mean_, self.coef_.T)
 
 
 def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index f2f14e6..32821a1 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -310,7 +310,7 @@ class Poisson(BaseEstimator):
     def _pre_fit(self, X, y):
         """Perform standardization, if needed, before fitting."""
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         return X, y
 
@@ -616,7 +616,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
     def _pre_fit(self, X, y):
         """Perform standardization, if needed, before fitting."""
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         if y.ndim == 2:
             self.output_dim = y.shape[1]
-- 
2.43.0


From 90c7f23909fbe24fae206a1b7c5a3be36a365a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 07/39] fix: Poisson without an intercept has an intercept_ of
 zero

The attribute was left unset, so predict refused a fitted model.
---
 src/pyuoi/linear_model/poisson.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 32821a1..f569b59 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -83,7 +83,9 @@ class Poisson(BaseEstimator):
         # check if the response variable is constant
         if np.unique(y).size == 1:
             self.coef_ = np.zeros(self.n_features)
-            if np.any(y):
+            if not self.fit_intercept:
+                self.intercept_ = 0.
+            elif np.any(y):
                 self.intercept_ = np.log(y.mean())
             else:
                 self.intercept_ = -np.inf
@@ -126,14 +128,12 @@ class Poisson(BaseEstimator):
                 self.intercept_ = coef[-1]
             else:
                 self.coef_ = coef
+                self.intercept_ = 0.
 
         # coordinate descent
         elif self.solver == 'cd':
-            self.coef_, intercept = self._cd(X=X, y=y,
-                                             sample_weight=sample_weight)
-
-            if self.fit_intercept:
-                self.intercept_ = intercept
+            self.coef_, self.intercept_ = self._cd(
+                X=X, y=y, sample_weight=sample_weight)
 
         else:
             raise ValueError('Solver not available.')
-- 
2.43.0


From 393c533e82d65e54f740da6d5b41c3eeee5f3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 08/39] fix: warm-started Poisson coordinate descent sweeps
 every feature

A warm start restricted the sweeps to the features that were already
nonzero, so a coefficient that started at zero could never enter the model,
and the updates were written into the previous coef_ array.
---
 src/pyuoi/linear_model/poisson.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index f569b59..3b0546b 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -213,17 +213,14 @@ class Poisson(BaseEstimator):
                 if self.standardize:
                     coef = self.coef_ * self._X_scaler.scale_
                 else:
-                    coef = self.coef_
+                    coef = np.copy(self.coef_)
 
             if self.fit_intercept:
                 if hasattr(self, 'intercept_'):
                     intercept = self.intercept_
 
-        # every coefficient is active unless there's a warm start
-        if self.warm_start:
-            active_idx = np.argwhere(coef != 0)
-        else:
-            active_idx = np.arange(self.n_features)
+        # every coefficient is active in the first sweep
+        active_idx = np.arange(n_features)
 
         prev_coef = np.copy(coef)
         # perform coordinate descent updates
-- 
2.43.0


From 8aea85f1f78d6efb20365718427122889dfcf5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 09/39] fix: rebuild the regularization path on every fit

Elastic-net, Poisson and logistic estimators kept the grid of the first
data set they were fitted to.
---
 src/pyuoi/linear_model/elasticnet.py | 21 +++++++-------
 src/pyuoi/linear_model/logistic.py   | 41 ++++++++++++++--------------
 src/pyuoi/linear_model/poisson.py    | 25 ++++++++---------
 3 files changed, 42 insertions(+), 45 deletions(-)

diff --git a/src/pyuoi/linear_model/elasticnet.py b/src/pyuoi/linear_model/elasticnet.py
index 1d3eed1..9b9d838 100644
--- a/src/pyuoi/linear_model/elasticnet.py
+++ b/src/pyuoi/linear_model/elasticnet.py
@@ -160,17 +160,16 @@ class UoI_ElasticNet(AbstractUoILinearRegressor, LinearRegression):
             alpha->l1_ratio). This allows easy passing into the ElasticNet
             object.
         """
-        if self.lambdas is None:
-            self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
-            # a set of lambdas are generated for each alpha value (l1_ratio in
-            # sci-kit learn parlance)
-            for alpha_idx, alpha in enumerate(self.alphas):
-                self.lambdas[alpha_idx, :] = _alpha_grid(
-                    X=X, y=y,
-                    l1_ratio=alpha,
-                    fit_intercept=self.fit_intercept,
-                    eps=self.eps,
-                    n_alphas=self.n_lambdas)
+        self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
+        # a set of lambdas are generated for each alpha value (l1_ratio in
+        # sci-kit learn parlance)
+        for alpha_idx, alpha in enumerate(self.alphas):
+            self.lambdas[alpha_idx, :] = _alpha_grid(
+                X=X, y=y,
+                l1_ratio=alpha,
+                fit_intercept=self.fit_intercept,
+                eps=self.eps,
+                n_alphas=self.n_lambdas)
 
         # place the regularization parameters into a list of dictionaries
         reg_params = list()
diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index b3992f0..2826220 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -154,27 +154,26 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
 
     def get_reg_params(self, X, y):
         input_dim = X.shape[1]
-        if self.Cs is None:
-            if self.output_dim == 1:
-                w = np.zeros(input_dim)
-                if self.fit_intercept:
-                    intercept = LogisticInterceptFitterNoFeatures(
-                        y, 1).intercept_
-                    w = np.concatenate([w, np.atleast_1d(intercept)])
-                _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
-            else:
-                w = np.zeros((self.output_dim, input_dim))
-                yp = OneHotEncoder(categories=[range(self.output_dim)],
-                                   sparse=False).fit_transform(y[:, np.newaxis])
-                if self.fit_intercept:
-                    intercept = LogisticInterceptFitterNoFeatures(
-                        y, self.output_dim).intercept_
-                    w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
-                _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
-                                                    np.ones(X.shape[0]))
-            alpha_max = abs(grad[:-1]).max()
-            logC = -np.log10(alpha_max)
-            self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
+        if self.output_dim == 1:
+            w = np.zeros(input_dim)
+            if self.fit_intercept:
+                intercept = LogisticInterceptFitterNoFeatures(
+                    y, 1).intercept_
+                w = np.concatenate([w, np.atleast_1d(intercept)])
+            _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
+        else:
+            w = np.zeros((self.output_dim, input_dim))
+            yp = OneHotEncoder(categories=[range(self.output_dim)],
+                               sparse=False).fit_transform(y[:, np.newaxis])
+            if self.fit_intercept:
+                intercept = LogisticInterceptFitterNoFeatures(
+                    y, self.output_dim).intercept_
+                w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
+            _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
+                                                np.ones(X.shape[0]))
+        alpha_max = abs(grad[:-1]).max()
+        logC = -np.log10(alpha_max)
+        self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
         ret = list()
         for c in self.Cs:
             ret.append(dict(C=c))
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 3b0546b..fcaf677 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -524,19 +524,18 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             object.
         """
         n_samples = X.shape[0]
-        if self.lambdas is None:
-            self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
-            # a set of lambdas are generated for each alpha value (l1_ratio in
-            # sci-kit learn parlance)
-            for alpha_idx, alpha in enumerate(self.alphas):
-                # calculate upper bound for lambda sweep
-                ybar = y.mean()
-                lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
-                lambda_max /= n_samples * alpha
-                self.lambdas[alpha_idx, :] = np.logspace(
-                    start=np.log10(lambda_max),
-                    stop=np.log10(self.eps * lambda_max),
-                    num=self.n_lambdas)
+        self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
+        # a set of lambdas are generated for each alpha value (l1_ratio in
+        # sci-kit learn parlance)
+        for alpha_idx, alpha in enumerate(self.alphas):
+            # calculate upper bound for lambda sweep
+            ybar = y.mean()
+            lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
+            lambda_max /= n_samples * alpha
+            self.lambdas[alpha_idx, :] = np.logspace(
+                start=np.log10(lambda_max),
+                stop=np.log10(self.eps * lambda_max),
+                num=self.n_lambdas)
 
         # place the regularization parameters into a list of dictionaries
         reg_params = list()
-- 
2.43.0


From 7fe33020a68be6d2a4a483991d52773f28e8ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 10/39] fix: the logistic and Poisson paths start at the null
 model

The logistic starting value used labels 0/1 where the loss expects -1/1,
dropped the last feature without an intercept and kept all but one intercept
of a multinomial model. The Poisson one assumed a fitted intercept.
---
 src/pyuoi/linear_model/logistic.py | 7 +++++--
 src/pyuoi/linear_model/poisson.py  | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 2826220..cd9b8be 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -160,7 +160,8 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
                 intercept = LogisticInterceptFitterNoFeatures(
                     y, 1).intercept_
                 w = np.concatenate([w, np.atleast_1d(intercept)])
-            _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
+            # the loss takes labels of -1 and 1
+            _, grad = _logistic_loss_and_grad(w, X, 2. * y - 1., 0., None)
         else:
             w = np.zeros((self.output_dim, input_dim))
             yp = OneHotEncoder(categories=[range(self.output_dim)],
@@ -171,7 +172,9 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
                 w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
             _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
                                                 np.ones(X.shape[0]))
-        alpha_max = abs(grad[:-1]).max()
+        # every feature of every output counts, the intercepts do not
+        grad = grad.reshape(self.output_dim, -1)[:, :input_dim]
+        alpha_max = abs(grad).max()
         logC = -np.log10(alpha_max)
         self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
         ret = list()
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index fcaf677..d9913f2 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -528,8 +528,10 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
         # a set of lambdas are generated for each alpha value (l1_ratio in
         # sci-kit learn parlance)
         for alpha_idx, alpha in enumerate(self.alphas):
-            # calculate upper bound for lambda sweep
-            ybar = y.mean()
+            # calculate upper bound for lambda sweep: the gradient of the
+            # likelihood at the null model, whose mean is one without an
+            # intercept
+            ybar = y.mean() if self.fit_intercept else 1.
             lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
             lambda_max /= n_samples * alpha
             self.lambdas[alpha_idx, :] = np.logspace(
-- 
2.43.0


From 61e1d7c924c0114d8a176e75f7786f3910fa1b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 11/39] fix: the all-zero early stop looks at every coefficient

Without an intercept the last feature's coefficients were taken for the
intercept, so a fit could stop at zero although that feature was selected.
---
 src/pyuoi/linear_model/logistic.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index cd9b8be..017bdcf 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -702,10 +702,8 @@ def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
                 zeros_seen = [0]
 
                 def zero_coef(x, *args):
-                    if multi_class == 'multinomial':
-                        x = x.reshape(-1, classes.size)[:-1]
-                    else:
-                        x = x[:-1]
+                    # the intercepts come after the coefficients
+                    x = x[:coef_size]
                     now_zeros = np.array_equiv(x, 0.)
                     if now_zeros:
                         zeros_seen[0] += 1
-- 
2.43.0


From 56f6e9ea818c5aeb6ea476840bbb1ca524306ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 12/39] fix: Poisson log-likelihood of a zero count under a
 zero mean is zero

A single predicted zero made the likelihood NaN unless every prediction was
zero.
---
 src/pyuoi/utils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pyuoi/utils.py b/src/pyuoi/utils.py
index 1b3709d..57e9e8c 100755
--- a/src/pyuoi/utils.py
+++ b/src/pyuoi/utils.py
@@ -2,6 +2,8 @@ import numpy as np
 import sys
 import logging
 
+from scipy.special import xlogy
+
 
 def softmax(y, axis=-1):
     """Calculates the softmax distribution.
@@ -55,13 +57,8 @@ def log_likelihood_glm(model, y_true, y_pred):
         n_samples = y_true.size
         ll = -n_samples / 2 * (1 + np.log(np.mean(rss)))
     elif model == 'poisson':
-        if not np.any(y_pred):
-            if np.any(y_true):
-                ll = -np.inf
-            else:
-                ll = 0.
-        else:
-            ll = np.mean(y_true * np.log(y_pred) - y_pred)
+        # a predicted mean of zero is free for a count of zero
+        ll = np.mean(xlogy(y_true, y_pred) - y_pred)
     else:
         raise ValueError('Model is not available.')
     return ll
-- 
2.43.0


From d020cbb58b978c2110aa37e13da4e6039be9ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 13/39] fix: class labels other than 0, 1, ... in logistic
 scores and predictions

The log-loss compared encoded labels with the original ones, and
MaskedCoefLogisticRegression replaced the original labels by encoded ones, so
predict answered with labels the caller never used.
---
 src/pyuoi/linear_model/base.py     | 3 ++-
 src/pyuoi/linear_model/logistic.py | 1 -
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 1a71d98..b4716f1 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -784,7 +784,8 @@ class AbstractUoIGeneralizedLinearRegressor(AbstractUoILinearModel,
                 y_pred = fitter.predict_proba(X[:, support])
             else:
                 y_pred = fitter.predict_proba(X)
-            ll = -log_loss(y, y_pred, labels=self.classes_)
+            # y holds the encoded labels 0, 1, ...
+            ll = -log_loss(y, y_pred, labels=np.arange(len(self.classes_)))
             if metric == 'log':
                 score = ll
             else:
diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 017bdcf..a08b852 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -383,7 +383,6 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         X, y = check_X_y(X, y, accept_sparse='csr', dtype=_dtype, order="C",
                          accept_large_sparse=True)
         check_classification_targets(y)
-        self.classes_ = np.unique(y)
         n_samples, n_features = X.shape
 
         multi_class = self.multi_class
-- 
2.43.0


From 5c8f165a70e76bd6582c0a191fc346197285a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 14/39] fix: the intercept-only Poisson model predicts one
 value per row

---
 src/pyuoi/linear_model/poisson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index d9913f2..aa05d08 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -678,7 +678,7 @@ class PoissonInterceptFitterNoFeatures(object):
         mode : array_like, shape (n_samples)
             The predicted response values, i.e. the modes.
         """
-        mu = np.exp(self.intercept_)
+        mu = self.predict_mean(X)
         mode = np.floor(mu)
         return mode
 
@@ -695,7 +695,7 @@ class PoissonInterceptFitterNoFeatures(object):
         mu : array_like, shape (n_samples)
             The predicted response values, i.e. the conditional means.
         """
-        mu = np.exp(self.intercept_)
+        mu = np.tile(np.exp(self.intercept_), X.shape[0])
         return mu
 
 
-- 
2.43.0


From edb0de730fb42accd5c25f7e1ce458f168766930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 15/39] fix: logistic intercept fit accepts a response with a
 single class

---
 src/pyuoi/linear_model/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index a08b852..4eb8828 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -221,7 +221,7 @@ def fit_intercept_fixed_coef(X, coef_, y, output_dim):
         def f_df(intercept):
             py = sigmoid(X.dot(coef_.T) + intercept)
             dfdb = py.mean() - y.mean()
-            return log_loss(y, py), np.atleast_1d(dfdb)
+            return log_loss(y, py, labels=[0, 1]), np.atleast_1d(dfdb)
 
         opt = minimize(f_df, np.atleast_1d(np.zeros(1)),
                        method='L-BFGS-B', jac=True)
-- 
2.43.0


From 17337610a569d4556dd7e29dd5ad7676121d939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 16/39] fix: masked logistic losses leave the caller's
 coefficients alone

---
 src/pyuoi/linear_model/logistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 4eb8828..c7a36f2 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -817,6 +817,7 @@ def _logistic_loss_and_grad(w, X, y, alpha, mask, sample_weight=None):
     """
     n_samples, n_features = X.shape
     if mask is not None:
+        w = np.copy(w)
         w[:n_features] *= mask
     grad = np.empty_like(w)
 
@@ -875,7 +876,7 @@ def _multinomial_loss_grad(w, X, Y, alpha, mask, sample_weight):
     n_samples, n_features = X.shape
     fit_intercept = (w.size == n_classes * (n_features + 1))
     if mask is not None:
-        w = w.reshape(n_classes, n_features + bool(fit_intercept))
+        w = w.reshape(n_classes, n_features + bool(fit_intercept)).copy()
         w[:, :n_features] *= mask
         w = w.ravel()
     grad = np.zeros((n_classes, n_features + bool(fit_intercept)),
-- 
2.43.0


From e9d40f168e392a9a87314816756c293b80d04bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 17/39] fix: data with a single feature

Squeezing away the feature axis made the selection sweep fail and turned the
coefficients into a scalar.
---
 src/pyuoi/linear_model/base.py    | 11 ++++++-----
 src/pyuoi/linear_model/poisson.py |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index b4716f1..df22f75 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -296,8 +296,9 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
             else:
                 self._logger.info("selection bootstrap %d" % (boot_idx))
-            selection_coefs[ii] = np.squeeze(
-                self.uoi_selection_sweep(X_rep, y_rep, my_reg_params))
+            selection_coefs[ii] = np.reshape(
+                self.uoi_selection_sweep(X_rep, y_rep, my_reg_params),
+                selection_coefs[ii].shape)
 
         # if distributed, gather selection coefficients to 0,
         # perform intersection, and broadcast results
@@ -547,7 +548,7 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
         if self.standardize:
             self._y_scaler = StandardScaler(with_mean=self.fit_intercept)
             y = self._y_scaler.fit_transform(y)
-        y = np.squeeze(y)
+        y = y[:, 0]
         self.output_dim = 1
         return X, y
 
@@ -561,7 +562,7 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
                 self.intercept_ *= sy.scale_
                 self.intercept_ += sy.mean_ - np.dot(sX.mean_,
                                                      self.coef_.T)
-        self.coef_ = np.squeeze(self.coef_)
+        self.coef_ = np.ravel(self.coef_)
 
     def intersect(self, coef, thresholds):
         """Intersect coefficients accross all thresholds."""
@@ -611,7 +612,7 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
             if y.shape[1] > 1:
                 raise ValueError('y should either have shape ' +
                                  '(n_samples, ) or (n_samples, 1).')
-            y = np.squeeze(y)
+            y = y[:, 0]
         elif y.ndim > 2:
             raise ValueError('y should either have shape ' +
                              '(n_samples, ) or (n_samples, 1).')
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index aa05d08..958cfc0 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -625,7 +625,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
     def _post_fit(self, X, y):
         """Rescale coefficients, if needed, after fitting."""
         if self.output_dim == 1:
-            self.coef_ = np.squeeze(self.coef_)
+            self.coef_ = np.ravel(self.coef_)
         if self.standardize:
             sX = self._X_scaler
             if self.fit_intercept:
-- 
2.43.0


From 02f0a075a47693d244d9102c2bf46f87c80fac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 18/39] fix: MPI helpers work for any root and for
 one-dimensional arrays

Bcast_from_root and Gatherv_rows mixed the given root with rank 0, gathering
one-dimensional arrays passed floating point counts, and scalars came back
with one dimension.
---
 src/pyuoi/mpi_utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index 4c3f3e9..66baef6 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -32,7 +32,8 @@ def check_valid_ndarray(X):
         return X
     if not isinstance(X, np.ndarray):
         raise ValueError('Must be a numpy ndarray.')
-    return np.ascontiguousarray(X)
+    # unlike ascontiguousarray, this keeps scalars zero-dimensional
+    return np.asarray(X, order='C')
 
 
 def load_data_MPI(h5_name, X_key='X', y_key='y', comm=None, root=0):
@@ -112,7 +113,7 @@ def Bcast_from_root(send, comm=None, root=0):
     if comm is None:
         comm = MPI.COMM_WORLD
     rank = comm.rank
-    if rank == 0:
+    if rank == root:
         dtype = send.dtype
         shape = send.shape
     else:
@@ -120,7 +121,7 @@ def Bcast_from_root(send, comm=None, root=0):
         shape = None
     shape = comm.bcast(shape, root=root)
     dtype = comm.bcast(dtype, root=root)
-    if rank != 0:
+    if rank != root:
         send = np.empty(shape, dtype=dtype)
     comm.Bcast([send, _np2mpi[np.dtype(dtype)]], root=root)
     return send
@@ -160,12 +161,13 @@ def Gatherv_rows(send, comm=None, root=0):
     if rank == root:
         rec_shape = (tot[0],) + shape[1:]
         rec = np.empty(rec_shape, dtype=dtype)
-        sizes = [size * np.prod(rec_shape[1:]) for size in rank_sizes]
+        row_size = np.prod(rec_shape[1:], dtype=int)
+        sizes = [size * row_size for size in rank_sizes]
         disps = np.insert(np.cumsum(sizes), 0, 0)[:-1]
     else:
         rec = None
         sizes = None
         disps = None
 
-    comm.Gatherv(send, [rec, sizes, disps, _np2mpi[dtype]], root=0)
+    comm.Gatherv(send, [rec, sizes, disps, _np2mpi[dtype]], root=root)
     return rec
-- 
2.43.0


From d9556654a18a78109fa420b85de54b2562c5e8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 19/39] fix: column_select draws from the given random state

The random_state argument was ignored, so CUR decompositions were not
reproducible.
---
 src/pyuoi/decomposition/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 70a44f5..b7b8bfa 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -1,5 +1,7 @@
 import numpy as np
 
+from sklearn.utils import check_random_state
+
 
 def column_select(V, c, leverage_sort=False, random_state=None):
     """Chooses column indices from a matrix given its SVD.
@@ -16,6 +18,9 @@ def column_select(V, c, leverage_sort=False, random_state=None):
         If True, resorts the column indices in increasing order of leverage
         score. If False, the column indices are sorted normally.
 
+    random_state : int, RandomState instance, or None
+        The source of the uniform draws that decide on the columns.
+
     Returns
     -------
     column_indices : ndarray of ints
@@ -24,7 +29,7 @@ def column_select(V, c, leverage_sort=False, random_state=None):
         score.
     """
     # random state
-    rng = np.random.RandomState(seed=None)
+    rng = check_random_state(random_state)
 
     # extract number of samples and rank
     n_features, k = V.shape
-- 
2.43.0


From 1650f1229bc87fb638248e00ac4e5de95ebe2d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:00 +0000
Subject: [PATCH 20/39] fix: UoI_CUR draws its columns from one random stream,
 empty selection keeps rows

With an integer random state every bootstrap and rank repeated the same
uniform draws, and an empty selection reported components with one row instead
of one per sample.
---
 src/pyuoi/decomposition/CUR.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyuoi/decomposition/CUR.py b/src/pyuoi/decomposition/CUR.py
index 7b017b6..21cb6ae 100644
--- a/src/pyuoi/decomposition/CUR.py
+++ b/src/pyuoi/decomposition/CUR.py
@@ -4,7 +4,7 @@ from .base import AbstractDecompositionModel
 
 from sklearn.decomposition import TruncatedSVD
 from sklearn.model_selection import train_test_split
-from sklearn.utils import check_array
+from sklearn.utils import check_array, check_random_state
 from sklearn.utils.validation import check_is_fitted
 
 from .utils import column_select, stability_selection_to_threshold
@@ -105,6 +105,9 @@ class UoI_CUR(AbstractDecompositionModel):
                             tol=self.tol,
                             random_state=self.random_state)
 
+        # successive draws for the columns, also with an integer seed
+        rng = check_random_state(self.random_state)
+
         # iterate over bootstraps
         for bootstrap in range(self.n_boots):
             # extract bootstrap
@@ -124,7 +127,7 @@ class UoI_CUR(AbstractDecompositionModel):
                 c = cs[k_idx]
 
                 column_indices = column_select(V[:, :k], c=c,
-                                               random_state=self.random_state)
+                                               random_state=rng)
                 # convert column flags to set
                 columns[k_idx, bootstrap][column_indices] += 1
 
@@ -134,10 +137,7 @@ class UoI_CUR(AbstractDecompositionModel):
         union = np.sum(intersection, axis=0) > 0
         self.column_indices_ = np.argwhere(union).ravel()
 
-        if self.column_indices_.size == 0:
-            self.components_ = np.array([[]])
-        else:
-            self.components_ = X[:, self.column_indices_]
+        self.components_ = X[:, self.column_indices_]
         return self
 
     def check_ks_and_cs(self, ks=None, cs=None):
-- 
2.43.0


From bca826d6905fbe8672acda20f97f503689752cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 21/39] fix: UoI NMF estimators store, return and apply their
 parameters

get_params and set_params failed on attributes that were never stored,
set_params returned None, the default ranks made fit fail, and UoI_NMF ignored
nmf, cluster, nnreg, cons_meth and db_leaf_size. Integer seeds that are not
Python ints were accepted and made fit fail.
---
 src/pyuoi/decomposition/NMF.py | 92 ++++++++++++++++++++++++----------
 1 file changed, 65 insertions(+), 27 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 52e105a..b482359 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -1,3 +1,5 @@
+import numbers
+
 import scipy.optimize as spo
 import numpy as np
 import logging
@@ -29,7 +31,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         The number of bootstraps to use for model selection.
     ranks : int, list, or None
         The range of k to use. If *ranks* is an int, range(2, ranks + 1) will
-        be used. If not specified, range(X.shape[1]) will be used.
+        be used. If not specified, range(1, X.shape[1]) will be used.
     nmf : NMF object
         The NMF object to use to perform fitting.
         Note: this class must take *n_components* as an argument.
@@ -78,7 +80,8 @@ class UoI_NMF_Base(AbstractDecompositionModel):
     def set_params(self, **kwargs):
         """Set the parameters of this estimator."""
         super(UoI_NMF_Base, self).set_params(**kwargs)
-        self.__initialize(**self.get_params())
+        self.__init__(**self.get_params(deep=False))
+        return self
 
     def __initialize(self, **kwargs):
         """Initializes the NMF class."""
@@ -90,12 +93,16 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         cons_meth = kwargs['cons_meth']
         random_state = kwargs['random_state']
 
+        self.random_state = random_state
+        self.logger = kwargs['logger']
         self.n_boots = n_boots
         self.components_ = None
         logger = kwargs['logger']
 
         # initialize NMF ranks to use
-        if ranks is not None:
+        if ranks is None:
+            self.ranks = None
+        else:
             if isinstance(ranks, int):
                 self.ranks = list(range(2, ranks + 1)) \
                     if isinstance(ranks, int) else list(ranks)
@@ -143,10 +150,13 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         if random_state is None:
             self._rand = np.random.RandomState()
         else:
-            if isinstance(random_state, int):
+            if isinstance(random_state, numbers.Integral):
                 self._rand = np.random.RandomState(random_state)
             elif isinstance(random_state, np.random.RandomState):
                 self._rand = random_state
+            else:
+                raise ValueError("random_state must be None, an int or a "
+                                 "RandomState.")
             self.nmf.set_params(random_state=self._rand)
 
         self.components_ = None
@@ -176,24 +186,27 @@ class UoI_NMF_Base(AbstractDecompositionModel):
 
         check_non_negative(X, 'UoI NMF')
         n_samples, n_features = X.shape
+        ranks = self.ranks
+        if ranks is None:
+            ranks = range(1, n_features)
 
         H_samples = {k: np.zeros((self.n_boots, k, n_features))
-                     for k in self.ranks}
+                     for k in ranks}
 
         rep_idx = self._rand.randint(n_samples, size=(self.n_boots, n_samples))
         for boot_idx in range(self.n_boots):
             self._logger.info("Bootstrap %d" % boot_idx)
             # compute NMF bases for k across bootstrap replicates
             sample = X[rep_idx[boot_idx]]
-            for k_idx, k in enumerate(self.ranks):
+            for k_idx, k in enumerate(ranks):
                 # concatenate k by p
                 H_samples[k][boot_idx] = \
                     self.nmf.set_params(n_components=k).fit(sample).components_
 
         if self.use_dissimilarity:
-            gamma = np.zeros(len(self.ranks))
+            gamma = np.zeros(len(ranks))
             # iterate over each rank
-            for k_idx, k in enumerate(self.ranks):
+            for k_idx, k in enumerate(ranks):
                 # extract the bases for each rank
                 H_k = H_samples[k]
                 for boot1, boot2 in combinations(range(self.n_boots), 2):
@@ -201,14 +214,14 @@ class UoI_NMF_Base(AbstractDecompositionModel):
             self.dissimilarity_ = (gamma * 2) /\
                                   (self.n_boots *
                                    (self.n_boots - 1))
-            k_min = self.ranks[np.argmin(gamma)]
+            k_min = ranks[np.argmin(gamma)]
             H_pre_cluster = H_samples[k_min].reshape((self.n_boots * k_min,
                                                       n_features))
         else:
-            H_pre_cluster = np.zeros((self.n_boots * np.sum(self.ranks),
+            H_pre_cluster = np.zeros((self.n_boots * np.sum(ranks),
                                       n_features))
             start_idx = 0
-            for k in self.ranks:
+            for k in ranks:
                 H_k = H_samples[k].reshape((self.n_boots * k, n_features))
                 end_idx = start_idx + self.n_boots * k
                 H_pre_cluster[start_idx:end_idx] = H_k
@@ -342,7 +355,7 @@ class UoI_NMF(UoI_NMF_Base):
         The number of bootstraps to use for model selection.
     ranks : int, list, or None
         The range of k to use. If *ranks* is an int, range(2, ranks + 1) will
-        be used. If not specified, range(X.shape[1]) will be used.
+        be used. If not specified, range(1, X.shape[1]) will be used.
     nmf_init :  "random" | "nndsvd" |  "nndsvda" | "nndsvdar" | "custom"
         Method used to initialize the NMF procedure. Valid options:
             * "random": non-negative random matrices, scaled with
@@ -414,29 +427,54 @@ class UoI_NMF(UoI_NMF_Base):
         use_dissimilarity=True, random_state=None, logger=None,
         nmf=None, cluster=None, nnreg=None, cons_meth=None
     ):
+        self.nmf_init = nmf_init
+        self.nmf_solver = nmf_solver
+        self.nmf_beta_loss = nmf_beta_loss
+        self.nmf_tol = nmf_tol
+        self.nmf_max_iter = nmf_max_iter
+        self.db_eps = db_eps
+        self.db_min_samples = db_min_samples
+        self.db_metric = db_metric
+        self.db_metric_params = db_metric_params
+        self.db_algorithm = db_algorithm
+        self.db_leaf_size = db_leaf_size
+
         # create NMF solver
-        nmf = skNMF(init=nmf_init,
-                    solver=nmf_solver,
-                    beta_loss=nmf_beta_loss,
-                    tol=nmf_tol,
-                    max_iter=nmf_max_iter)
+        if nmf is None:
+            nmf = skNMF(init=nmf_init,
+                        solver=nmf_solver,
+                        beta_loss=nmf_beta_loss,
+                        tol=nmf_tol,
+                        max_iter=nmf_max_iter)
 
         # create DBSCAN solver
-        if db_min_samples is None:
-            db_min_samples = max(n_boots // 2, 1)
-        dbscan = DBSCAN(eps=db_eps,
-                        min_samples=db_min_samples,
-                        metric=db_metric,
-                        metric_params=db_metric_params,
-                        algorithm=db_algorithm)
+        if cluster is None:
+            if db_min_samples is None:
+                db_min_samples = max(n_boots // 2, 1)
+            cluster = DBSCAN(eps=db_eps,
+                             min_samples=db_min_samples,
+                             metric=db_metric,
+                             metric_params=db_metric_params,
+                             algorithm=db_algorithm,
+                             leaf_size=db_leaf_size)
 
         super(UoI_NMF, self).__init__(
             n_boots=n_boots,
             ranks=ranks,
             nmf=nmf,
-            cluster=dbscan,
-            nnreg=None,
-            cons_meth=np.mean,
+            cluster=cluster,
+            nnreg=nnreg,
+            cons_meth=cons_meth,
             random_state=random_state,
             use_dissimilarity=use_dissimilarity,
             logger=logger)
+
+    def set_params(self, **kwargs):
+        """Set the parameters of this estimator."""
+        # solvers that are not given are created anew from their settings
+        if any(key.startswith('nmf_') and not key.startswith('nmf__')
+               for key in kwargs):
+            kwargs.setdefault('nmf', None)
+        if any(key == 'n_boots' or (key.startswith('db_')) for key in kwargs):
+            kwargs.setdefault('cluster', None)
+        return super(UoI_NMF, self).set_params(**kwargs)
-- 
2.43.0


From 274f72e517c260885648a6e2ee50354a21631469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 22/39] fix: numpy integer seeds give successive bootstraps

A numpy integer was kept as the random state, so every bootstrap used the same
split and every rank the same seed.
---
 src/pyuoi/linear_model/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index df22f75..b559b8c 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -1,6 +1,7 @@
 import abc as _abc
 import numpy as np
 import logging
+import numbers
 from sklearn.linear_model._base import SparseCoefMixin
 from sklearn.metrics import r2_score, accuracy_score, log_loss
 from sklearn.model_selection import train_test_split
@@ -102,7 +103,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
         self.tol = tol
         self.comm = comm
         # preprocessing
-        if isinstance(random_state, int):
+        if isinstance(random_state, numbers.Integral):
             # make sure ranks use different seed
             if self.comm is not None:
                 random_state += self.comm.rank
-- 
2.43.0


From df90b193c9ce38e6e4019f4fec34ecee5eb93287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 23/39] fix: UoI linear models return and apply their
 parameters

get_params (and so repr) failed on parameters that were never stored,
set_params did not reach the solvers, and unknown solvers were accepted but
failed later.
---
 src/pyuoi/linear_model/base.py     | 19 +++++++++++++++++++
 src/pyuoi/linear_model/lasso.py    |  6 +++++-
 src/pyuoi/linear_model/logistic.py |  1 +
 src/pyuoi/linear_model/poisson.py  |  3 +++
 4 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index b559b8c..6b8d0f9 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -120,8 +120,23 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
         self.n_supports_ = None
 
+        self.logger = logger
         self._logger = check_logger(logger, 'uoi_linear_model', self.comm)
 
+    def set_params(self, **params):
+        """Set the parameters of this estimator.
+
+        The estimator is set up anew, so that the parameters are validated and
+        reach the selection and estimation solvers.
+        """
+        all_params = self.get_params(deep=False)
+        for key in params:
+            if key not in all_params:
+                raise ValueError('Invalid parameter %s' % key)
+        all_params.update(params)
+        self.__init__(**all_params)
+        return self
+
     @_abc.abstractproperty
     def estimation_score(self):
         pass
@@ -518,6 +533,7 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
             random_state=random_state,
             comm=comm,
             logger=logger)
+        self.copy_X = copy_X
 
         if estimation_score not in self._valid_estimation_metrics:
             raise ValueError(
@@ -525,6 +541,7 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
 
         self.__estimation_score = estimation_score
 
+        self.estimation_target = estimation_target
         if estimation_target is not None:
             if estimation_target not in ['train', 'test']:
                 raise ValueError(
@@ -698,12 +715,14 @@ class AbstractUoIGeneralizedLinearRegressor(AbstractUoILinearModel,
             tol=tol,
             comm=comm,
             logger=logger)
+        self.copy_X = copy_X
 
         if estimation_score not in self._valid_estimation_metrics:
             raise ValueError(
                 "invalid estimation metric: '%s'" % estimation_score)
         self.__estimation_score = estimation_score
 
+        self.estimation_target = estimation_target
         if estimation_target is not None:
             if estimation_target not in ['train', 'test']:
                 raise ValueError(
diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index 2bc148e..f7d2ec5 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -54,13 +54,14 @@ class PycLasso():
 
     def set_params(self, **kwargs):
         """Sets the parameters of this estimator."""
-        _valid_params = ['alphas', 'fit_intercept', 'max_iter']
+        _valid_params = ['alphas', 'fit_intercept', 'max_iter', 'tol']
 
         for key, value in kwargs.items():
             if key in _valid_params:
                 setattr(self, key, value)
             else:
                 raise ValueError('Invalid parameter %s' % key)
+        return self
 
     def predict(self, X):
         """Predicts responses given a design matrix.
@@ -224,6 +225,7 @@ class UoI_Lasso(AbstractUoILinearRegressor, LinearRegression):
             logger=logger)
         self.n_lambdas = n_lambdas
         self.eps = eps
+        self.warm_start = warm_start
         self.solver = solver
         self.tol = tol
 
@@ -241,6 +243,8 @@ class UoI_Lasso(AbstractUoILinearRegressor, LinearRegression):
                 fit_intercept=fit_intercept,
                 max_iter=max_iter,
                 tol=tol)
+        else:
+            raise ValueError("invalid solver: %s" % solver)
 
         self._estimation_lm = LinearRegression(fit_intercept=fit_intercept)
 
diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index c7a36f2..afe4b60 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -134,6 +134,7 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
         self.n_C = n_C
         self.Cs = None
         self.multi_class = multi_class
+        self.warm_start = warm_start
         self.eps = eps
         self.tol = tol
         self.solver = 'lbfgs'
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 958cfc0..1f119ad 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -484,8 +484,11 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
         self.alphas = alphas
         self.n_alphas = len(alphas)
         self.warm_start = warm_start
+        self.solver = solver
         self.eps = eps
         self.lambdas = None
+        if solver not in ('lbfgs', 'cd'):
+            raise ValueError("invalid solver: %s" % solver)
         self._selection_lm = Poisson(
             fit_intercept=fit_intercept,
             standardize=standardize,
-- 
2.43.0


From cab9e18f3d68a4117154e01fe2d629bf1b40390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:30 +0000
Subject: [PATCH 24/39] fix: stopping on the decrease of the objective is a
 success

With past and delta set, a converged run ended in a KeyError.
---
 src/pyuoi/lbfgs/_lowlevel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 7afad38..bf4165b 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -400,7 +400,7 @@ cdef class LBFGS(object):
             r = lbfgs(n, x_a, fx_final, call_eval,
                       call_progress, <void *>callback_data, &self.params)
 
-            if r == LBFGS_SUCCESS or r == LBFGS_ALREADY_MINIMIZED:
+            if r in (LBFGS_SUCCESS, LBFGS_STOP, LBFGS_ALREADY_MINIMIZED):
 
                 x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
                                                        <void *>x_a).copy()
-- 
2.43.0


From acfb5ba26483ed250a6f7c5ddfa22229b3b6596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:30 +0000
Subject: [PATCH 25/39] fix: failing and cancelling L-BFGS callbacks are
 reported

An exception in a callback was printed and the run went on to report success,
and a nonzero return of the progress callback ended in a KeyError or, for some
values, in success.
---
 src/pyuoi/lbfgs/_lowlevel.pyx | 39 +++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index bf4165b..03a08a2 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -113,12 +113,20 @@ cdef lbfgsfloatval_t call_eval(void *cb_data_v,
     cdef np.npy_intp tshape[1]
 
     callback_data = <object>cb_data_v
-    (f, progress_fn, shape, args) = callback_data
+    (f, progress_fn, shape, args, stopped) = callback_data
+    if stopped:
+        # a callback has failed: let the native code run out
+        return float('nan')
     tshape[0] = <np.npy_intp>n
     x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE, <void *>x)
     g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE, <void *>g)
 
-    return f(x_array.reshape(shape), g_array.reshape(shape), *args)
+    # exceptions cannot pass through the native code: minimize raises them
+    try:
+        return f(x_array.reshape(shape), g_array.reshape(shape), *args)
+    except BaseException as error:
+        stopped.append(error)
+        return float('nan')
 
 
 # Callback into Python progress reporting callable.
@@ -131,8 +139,10 @@ cdef int call_progress(void *cb_data_v,
     cdef np.npy_intp tshape[1]
 
     callback_data = <object>cb_data_v
-    (f, progress_fn, shape, args) = callback_data
+    (f, progress_fn, shape, args, stopped) = callback_data
 
+    if stopped:
+        return LBFGSERR_CANCELED
     if progress_fn:
         tshape[0] = <np.npy_intp>n
         x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
@@ -140,10 +150,18 @@ cdef int call_progress(void *cb_data_v,
         g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
                                                <void *>g)
 
-        r = progress_fn(x_array.reshape(shape), g_array.reshape(shape), fx,
-                        xnorm, gnorm, step, k, ls, *args)
-        # TODO what happens when the callback returns the wrong type?
-        return 0 if r is None else r
+        try:
+            r = progress_fn(x_array.reshape(shape), g_array.reshape(shape), fx,
+                            xnorm, gnorm, step, k, ls, *args)
+            if r is None or r == 0:
+                return 0
+            if r == LBFGS_ALLZERO:
+                return LBFGS_ALLZERO
+            # the callback's own code could be mistaken for a native one
+            stopped.append(LBFGSError(_ERROR_MESSAGES[LBFGSERR_CANCELED]))
+        except BaseException as error:
+            stopped.append(error)
+        return LBFGSERR_CANCELED
     else:
         return 0
 
@@ -396,11 +414,14 @@ cdef class LBFGS(object):
         x_a = aligned_copy(x0.ravel())
 
         try:
-            callback_data = (f, progress, x0.shape, args)
+            stopped = []
+            callback_data = (f, progress, x0.shape, args, stopped)
             r = lbfgs(n, x_a, fx_final, call_eval,
                       call_progress, <void *>callback_data, &self.params)
 
-            if r in (LBFGS_SUCCESS, LBFGS_STOP, LBFGS_ALREADY_MINIMIZED):
+            if stopped:
+                raise stopped[0]
+            elif r in (LBFGS_SUCCESS, LBFGS_STOP, LBFGS_ALREADY_MINIMIZED):
 
                 x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
                                                        <void *>x_a).copy()
-- 
2.43.0


From 5114eda5a060e9547739ad2edf1f74e49cd30d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 26/39] fix: coordinate descent for Poisson models survives
 all-zero features

A feature that is zero in every sample (any constant feature, once
standardized) made the coordinate update divide zero by zero, and every
coefficient of the fit became NaN.
---
 src/pyuoi/linear_model/poisson.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 1f119ad..c668b76 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -297,10 +297,14 @@ class Poisson(BaseEstimator):
             # equation 5.44; Hastie, Tibshirani, Wainwright (2016)
             num_update = np.dot(w, x * (z - z_hat)) / n_samples
             den_update = np.dot(w, x**2) / n_samples
-            # replace coefficients sequentially
-            coef[idx] = \
-                self.soft_threshold(num_update, self.l1_ratio * self.alpha) \
-                / (den_update + self.alpha * (1 - self.l1_ratio))
+            den_update += self.alpha * (1 - self.l1_ratio)
+            # replace coefficients sequentially; a feature that is zero in
+            # every sample has no effect
+            if den_update == 0:
+                coef[idx] = 0.
+            else:
+                coef[idx] = self.soft_threshold(
+                    num_update, self.l1_ratio * self.alpha) / den_update
 
         return coef, intercept
 
-- 
2.43.0


From 413416c7275a73c7fd67da4ac49c53237cf541a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 27/39] fix: non-numeric ranks and column counts of UoI_CUR are
 refused with a ValueError

---
 src/pyuoi/decomposition/CUR.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/decomposition/CUR.py b/src/pyuoi/decomposition/CUR.py
index 21cb6ae..9ff822b 100644
--- a/src/pyuoi/decomposition/CUR.py
+++ b/src/pyuoi/decomposition/CUR.py
@@ -170,9 +170,9 @@ class UoI_CUR(AbstractDecompositionModel):
 
         # check that the numpy array contains valid values
         if (
-            (not np.all(ks <= self.max_k))
+            (not np.issubdtype(ks.dtype, np.integer))
+            or (not np.all(ks <= self.max_k))
             or (not np.all(ks > 0))
-            or (not np.issubdtype(ks.dtype, np.integer))
         ):
             raise ValueError('Ranks must be positive, integers, and no more'
                              ' than the max rank.')
@@ -192,8 +192,8 @@ class UoI_CUR(AbstractDecompositionModel):
 
         # check that the numpy array contains valid values
         if (
-            (not np.all(cs > 0))
-            or (not np.issubdtype(cs.dtype, np.number))
+            (not np.issubdtype(cs.dtype, np.number))
+            or (not np.all(cs > 0))
             or (not cs.size == ks.size)
         ):
             raise ValueError('Expected number of columns must consist of'
-- 
2.43.0


From 36b57300e912d8d2c88c347dca1276419d4d474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 28/39] fix: UoI_NMF accepts clusterers whose labels are not
 0..K-1

---
 src/pyuoi/decomposition/NMF.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index b482359..c941ea9 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -242,9 +242,9 @@ class UoI_NMF_Base(AbstractDecompositionModel):
                           n_clusters)
         H_cons = np.zeros((n_clusters, n_features))
 
-        for c_id in cluster_ids:
-            H_cons[c_id, :] = self.cons_meth(H_pre_cluster[labels == c_id],
-                                             axis=0)
+        for c_idx, c_id in enumerate(cluster_ids):
+            H_cons[c_idx, :] = self.cons_meth(H_pre_cluster[labels == c_id],
+                                              axis=0)
 
         # re-normalize across features
         H_cons = normalize(H_cons, norm='l2', axis=1)
-- 
2.43.0


From eebee4e3e933ad32670b07ab8f99595a929f9bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 29/39] fix: UoI_NMF weights of integer data are not truncated

---
 src/pyuoi/decomposition/NMF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index c941ea9..c6b9ef1 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -282,7 +282,8 @@ class UoI_NMF_Base(AbstractDecompositionModel):
                 % (X.shape, self.components_.shape))
 
         H_t = self.components_.T
-        W = np.zeros((n_samples, self.n_components), dtype=X.dtype)
+        W = np.zeros((n_samples, self.n_components),
+                     dtype=np.result_type(X.dtype, self.components_.dtype))
 
         # calculate coefficients for each sample
         for sample in range(n_samples):
-- 
2.43.0


From 9b3bd88a5860b93060cb63189100f097e16ded60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 30/39] fix: make_classification with a single sample

---
 src/pyuoi/datasets/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index d13394e..0ba5259 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -170,7 +170,7 @@ def make_classification(n_samples=100, n_features=20, n_informative=2,
         y = np.array([rng.multinomial(1, pi) for pi in p])
         y = y.argmax(axis=-1)
     else:
-        p = sigmoid(np.squeeze(log_p))
+        p = sigmoid(np.squeeze(log_p, axis=-1))
         y = np.array([rng.binomial(1, pi) for pi in p])
 
     return X, y, w.T, intercept
-- 
2.43.0


From 52c569b4bc77b4d588b102602fee34e0064ed7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 31/39] fix: make_classification accepts numpy integer seeds

---
 src/pyuoi/datasets/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index 0ba5259..72bb3f0 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -1,3 +1,5 @@
+import numbers
+
 import numpy as np
 from sklearn.utils import check_random_state
 
@@ -123,7 +125,7 @@ def make_classification(n_samples=100, n_features=20, n_informative=2,
         If true, includes an intercept in the model, if False, the intercept is
         set to 0.
     """
-    if isinstance(random_state, int):
+    if isinstance(random_state, numbers.Integral):
         rng = np.random.RandomState(random_state)
     else:
         if random_state is None:
-- 
2.43.0


From 7f64bd6ed6ed6ea551bd01acb7871771965caec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 32/39] fix: logistic regression refuses unknown penalties and
 multi-class modes

An unknown penalty was fitted without any penalty, and multi-class modes
given to set_params were not validated.
---
 src/pyuoi/linear_model/logistic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index afe4b60..260d3d7 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -367,6 +367,12 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         -------
         self : object
         """
+        if self.penalty not in ('l1', 'l2'):
+            raise ValueError("penalty should be 'l1' or 'l2'. Got %s."
+                             % self.penalty)
+        if self.multi_class not in ('multinomial', 'auto'):
+            raise ValueError("multi_class should be 'multinomial' or " +
+                             "'auto'. Got %s." % self.multi_class)
         if not isinstance(self.C, numbers.Number) or self.C < 0:
             raise ValueError("Penalty term must be positive; got (C=%r)"
                              % self.C)
-- 
2.43.0


From 6b707a29f2fcda1035bf38daa5993dfba31b4935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 33/39] fix: Poisson refuses unknown solvers for constant
 responses too

---
 src/pyuoi/linear_model/poisson.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index c668b76..75a274e 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -77,6 +77,9 @@ class Poisson(BaseEstimator):
             Array of weights assigned to the individual samples. If ``None``,
             then each sample is provided an equal weight.
         """
+        if self.solver not in ('lbfgs', 'cd'):
+            raise ValueError('Solver not available.')
+
         self.n_samples, self.n_features = X.shape
         X, y = self._pre_fit(X, y)
 
@@ -131,13 +134,10 @@ class Poisson(BaseEstimator):
                 self.intercept_ = 0.
 
         # coordinate descent
-        elif self.solver == 'cd':
+        else:
             self.coef_, self.intercept_ = self._cd(
                 X=X, y=y, sample_weight=sample_weight)
 
-        else:
-            raise ValueError('Solver not available.')
-
         self._post_fit(X, y)
         return self
 
-- 
2.43.0


From 71ff023fc13a8626a9726808db62a5afad29b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 34/39] fix: UoI NMF keeps its ranks as given, so that it can
 be cloned

---
 src/pyuoi/decomposition/NMF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index c6b9ef1..a3d7551 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -107,7 +107,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
                 self.ranks = list(range(2, ranks + 1)) \
                     if isinstance(ranks, int) else list(ranks)
             elif isinstance(ranks, (list, tuple, range, np.ndarray)):
-                self.ranks = tuple(ranks)
+                self.ranks = ranks
             else:
                 raise ValueError('Specify a max value or an array-like for k.')
 
-- 
2.43.0


From 34fa16dda4aec961f7adbaefd7b376d5c4f7318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 35/39] fix: UoI_NMF.set_params keeps solvers that were given

Setting n_boots or a db_/nmf_ setting replaced a given clusterer or factorizer
by the default one.
---
 src/pyuoi/decomposition/NMF.py | 54 +++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index a3d7551..39dc054 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -442,22 +442,11 @@ class UoI_NMF(UoI_NMF_Base):
 
         # create NMF solver
         if nmf is None:
-            nmf = skNMF(init=nmf_init,
-                        solver=nmf_solver,
-                        beta_loss=nmf_beta_loss,
-                        tol=nmf_tol,
-                        max_iter=nmf_max_iter)
+            nmf = self._default_nmf()
 
         # create DBSCAN solver
         if cluster is None:
-            if db_min_samples is None:
-                db_min_samples = max(n_boots // 2, 1)
-            cluster = DBSCAN(eps=db_eps,
-                             min_samples=db_min_samples,
-                             metric=db_metric,
-                             metric_params=db_metric_params,
-                             algorithm=db_algorithm,
-                             leaf_size=db_leaf_size)
+            cluster = self._default_cluster(n_boots)
 
         super(UoI_NMF, self).__init__(
             n_boots=n_boots,
@@ -472,10 +461,41 @@ class UoI_NMF(UoI_NMF_Base):
 
     def set_params(self, **kwargs):
         """Set the parameters of this estimator."""
-        # solvers that are not given are created anew from their settings
+        # solvers that were not given are created anew from their settings
         if any(key.startswith('nmf_') and not key.startswith('nmf__')
                for key in kwargs):
-            kwargs.setdefault('nmf', None)
-        if any(key == 'n_boots' or (key.startswith('db_')) for key in kwargs):
-            kwargs.setdefault('cluster', None)
+            if _same_solver(self.nmf, self._default_nmf()):
+                kwargs.setdefault('nmf', None)
+        if any(key == 'n_boots' or key.startswith('db_') for key in kwargs):
+            if _same_solver(self.cluster, self._default_cluster(self.n_boots)):
+                kwargs.setdefault('cluster', None)
         return super(UoI_NMF, self).set_params(**kwargs)
+
+    def _default_nmf(self):
+        """The NMF solver described by the settings."""
+        return skNMF(init=self.nmf_init,
+                     solver=self.nmf_solver,
+                     beta_loss=self.nmf_beta_loss,
+                     tol=self.nmf_tol,
+                     max_iter=self.nmf_max_iter)
+
+    def _default_cluster(self, n_boots):
+        """The DBSCAN solver described by the settings."""
+        db_min_samples = self.db_min_samples
+        if db_min_samples is None:
+            db_min_samples = max(n_boots // 2, 1)
+        return DBSCAN(eps=self.db_eps,
+                      min_samples=db_min_samples,
+                      metric=self.db_metric,
+                      metric_params=self.db_metric_params,
+                      algorithm=self.db_algorithm,
+                      leaf_size=self.db_leaf_size)
+
+
+def _same_solver(solver, default):
+    """Whether a solver is the default one, apart from what UoI_NMF sets."""
+    if type(solver) is not type(default):
+        return False
+    params, defaults = solver.get_params(), default.get_params()
+    return all(params[key] == defaults[key] for key in defaults
+               if key not in ('n_components', 'random_state'))
-- 
2.43.0


From 84e97ceea355d43f4fd482dda535710f98791e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 36/39] fix: the invalid min_step error names min_step

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 03a08a2..1397c55 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -199,7 +199,7 @@ _ERROR_MESSAGES = {
     LBFGSERR_INVALID_TESTPERIOD: "Invalid parameter past specified.",
     LBFGSERR_INVALID_DELTA: "Invalid parameter delta specified.",
     LBFGSERR_INVALID_LINESEARCH: "Invalid parameter linesearch specified.",
-    LBFGSERR_INVALID_MINSTEP: "Invalid parameter max_step specified.",
+    LBFGSERR_INVALID_MINSTEP: "Invalid parameter min_step specified.",
     LBFGSERR_INVALID_MAXSTEP: "Invalid parameter max_step specified.",
     LBFGSERR_INVALID_FTOL: "Invalid parameter ftol specified.",
     LBFGSERR_INVALID_WOLFE: "Invalid parameter wolfe specified.",
-- 
2.43.0


From 6a2e01f9210baad8dba8fca60e1b692b08448f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 37/39] fix: a limited memory of no corrections is refused

---
 liblbfgs/lbfgs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index 7c29728..8652fac 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -294,6 +294,10 @@ int lbfgs(
         return LBFGSERR_INVALID_X_SSE;
     }
 #endif/*defined(USE_SSE)*/
+    if (m <= 0) {
+        /* At least one correction is stored. */
+        return LBFGSERR_INVALIDPARAMETERS;
+    }
     if (param.epsilon < 0.) {
         return LBFGSERR_INVALID_EPSILON;
     }
-- 
2.43.0


From 7a24474ee1f86dfe67f8f2baa88e77df792debe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 38/39] fix: running out of memory for the past test is
 reported

---
 liblbfgs/lbfgs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index 8652fac..53c1c5e 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -410,6 +410,10 @@ int lbfgs(
     /* Allocate an array for storing previous values of the objective function. */
     if (0 < param.past) {
         pf = (lbfgsfloatval_t*)vecalloc(param.past * sizeof(lbfgsfloatval_t));
+        if (pf == NULL) {
+            ret = LBFGSERR_OUTOFMEMORY;
+            goto lbfgs_exit;
+        }
     }
 
     /* Evaluate the function value and its gradient. */
-- 
2.43.0


From a9932dc6348bcbd61ec57b0103e1aa95b47f3611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:36 +0000
Subject: [PATCH 39/39] fix: backtracking line search does not accept a NaN
 objective

---
 liblbfgs/lbfgs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index 53c1c5e..e00fcc4 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -695,7 +695,8 @@ static int line_search_backtracking(
 
         ++count;
 
-        if (*f > finit + *stp * dgtest) {
+        /* An objective that is not a number is no decrease. */
+        if (!(*f <= finit + *stp * dgtest)) {
             width = dec;
         } else {
             /* The sufficient decrease condition (Armijo condition). */
-- 
2.43.0

