From 2569de335e0b5756700ae0b4083617c0395c33a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 01/36] fix: exponential_gamma adds the count to the shape and
 the total to the rate

---
 conjugate/models.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index f9de221..5c49b6a 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -617,8 +617,17 @@ def poisson_gamma_predictive(
     return NegativeBinomial(n=n, p=p)
 
 
-# Just happen to be the same as above
-get_exponential_gamma_posterior_params = get_poisson_gamma_posterior_params
+def get_exponential_gamma_posterior_params(
+    *,
+    alpha: NUMERIC,
+    beta: NUMERIC,
+    x_total: NUMERIC,
+    n: NUMERIC,
+) -> tuple[NUMERIC, NUMERIC]:
+    alpha_post = alpha + n
+    beta_post = beta + x_total
+
+    return alpha_post, beta_post
 
 
 @validate_prior_type
-- 
2.43.0


From 1f61d0a0b2793eaf4d54885715019762b74a74e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 02/36] fix: exponential_gamma_predictive passes shape and
 scale of the Lomax in order

---
 conjugate/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 5c49b6a..d70d0e1 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -701,7 +701,7 @@ def exponential_gamma_predictive(*, distribution: Gamma) -> Lomax:
 
         ![exponential_gamma_predictive](./images/docstrings/exponential_gamma_predictive.png)
     """
-    return Lomax(alpha=distribution.beta, lam=distribution.alpha)
+    return Lomax(alpha=distribution.alpha, lam=distribution.beta)
 
 
 @validate_prior_type
-- 
2.43.0


From 73df96910a579a14bebbd60fbee0ea335c156781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 03/36] fix: poisson_gamma_predictive scales the rate, not the
 shape, by n

---
 conjugate/models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index d70d0e1..79c0507 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -611,10 +611,9 @@ def poisson_gamma_predictive(
         NegativeBinomial distribution related to predictive
 
     """
-    n = n * distribution.alpha
-    p = distribution.beta / (1 + distribution.beta)
+    p = distribution.beta / (n + distribution.beta)
 
-    return NegativeBinomial(n=n, p=p)
+    return NegativeBinomial(n=distribution.alpha, p=p)
 
 
 def get_exponential_gamma_posterior_params(
-- 
2.43.0


From f319cbd0995261909718979678ae933d74c19586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 04/36] fix: beta geometric mass starts at the first trial, is
 zero outside the support and does not underflow

---
 conjugate/_beta_geometric.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index d40b962..d754a22 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -3,7 +3,7 @@
 import numpy as np
 
 from scipy import stats
-from scipy.special import beta
+from scipy.special import betaln
 
 
 def beta_geometric_pmf(x, a, b, one_start: bool = True):
@@ -12,7 +12,11 @@ def beta_geometric_pmf(x, a, b, one_start: bool = True):
     if not one_start:
         x = x + 1
 
-    return beta(a + 1, x + b) / beta(a, b)
+    support = (x >= 1) & (x == np.floor(x))
+    failures = np.where(support, x, 1) - 1
+    pmf = np.exp(betaln(a + 1, b + failures) - betaln(a, b))
+
+    return np.where(support, pmf, 0.0)[()]
 
 
 class beta_geometric:
-- 
2.43.0


From b29c5f5055be57a6faf3cf38503ca60329570898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 05/36] fix: compound gamma density is zero outside the support
 and does not underflow

---
 conjugate/_compound_gamma.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index 7eab08d..49043a1 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -1,11 +1,17 @@
 import numpy as np
 
-from scipy.special import beta
+from scipy.special import betaln, xlog1py, xlogy
 from scipy.stats import gamma
 
 
 def compound_gamma_pdf(x, a, b, q):
-    return (x / q) ** (a - 1) * (1 + (x / q)) ** (-a - b) / (q * beta(a, b))
+    x, a, b, q = np.broadcast_arrays(x, a, b, q)
+
+    support = x >= 0
+    ratio = np.where(support, x, 1) / q
+    log_pdf = xlogy(a - 1, ratio) - xlog1py(a + b, ratio) - np.log(q) - betaln(a, b)
+
+    return np.where(support, np.exp(log_pdf), 0.0)[()]
 
 
 class compound_gamma:
-- 
2.43.0


From c8062a563523c2bbd2d9164cc72af626c1abcb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 06/36] fix: Uniform.dist spans low to high

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 9952416..3ed69e4 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -504,7 +504,7 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.uniform(self.low, self.high)
+        return stats.uniform(self.low, self.high - self.low)
 
 
 @dataclass
-- 
2.43.0


From 97d790fba22d3ad30ec65df0ff21bbea6b2a044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 07/36] fix: LogNormal.dist uses mu as the mean of the
 logarithm

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 3ed69e4..58448e0 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1304,7 +1304,7 @@ class LogNormal(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.lognorm(s=self.sigma, loc=self.mu)
+        return stats.lognorm(s=self.sigma, scale=np.exp(self.mu))
 
 
 @dataclass
-- 
2.43.0


From 86739cbcae4259d0469fead5dbee151a0e6a06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 08/36] fix: univariate marginal of MultivariateStudentT takes
 the square root of the diagonal

---
 conjugate/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 58448e0..357f89f 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -708,7 +708,9 @@ class MultivariateStudentT:
 
     def __getitem__(self, key):
         if isinstance(key, int):
-            return StudentT(mu=self.mu[key], sigma=self.sigma[key, key], nu=self.nu)
+            return StudentT(
+                mu=self.mu[key], sigma=self.sigma[key, key] ** 0.5, nu=self.nu
+            )
 
         return MultivariateStudentT(
             mu=self.mu[key], sigma=self.sigma[key][:, key], nu=self.nu
-- 
2.43.0


From b3ef19d469a8696465d30175f4616336989b0dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 09/36] fix: wrong prior or distribution for a function
 accepting two classes raises ValueError

---
 conjugate/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 79c0507..4fc3090 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -79,8 +79,9 @@ def validate_type(func, parameter: str):
             parameter_value = kwargs.get(parameter, None)
             recieved_type = type(parameter_value)
             if not isinstance(parameter_value, expected_type):
+                expected_name = getattr(expected_type, "__name__", str(expected_type))
                 msg = (
-                    f"Expected {parameter} to be of type {expected_type.__name__!r}, "
+                    f"Expected {parameter} to be of type {expected_name!r}, "
                     f"got {recieved_type.__name__!r} instead."
                 )
                 raise ValueError(msg)
-- 
2.43.0


From 5246bdda967738b9b375651d5227ad27c358e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 10/36] fix: normal and log_normal updates accept an empty
 batch

---
 conjugate/models.py  | 4 +---
 docs/examples/sql.md | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 4fc3090..4a1efdd 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1233,10 +1233,8 @@ def _normal(
     alpha: NUMERIC,
     beta: NUMERIC,
 ) -> tuple[NUMERIC, NUMERIC, NUMERIC, NUMERIC]:
-    x_mean = x_total / n
-
     nu_post = nu + n
-    mu_post = ((nu * mu_0) + (n * x_mean)) / nu_post
+    mu_post = ((nu * mu_0) + x_total) / nu_post
 
     alpha_post = alpha + (n / 2)
     beta_post = beta + 0.5 * ((mu_0**2) * nu + x2_total - (mu_post**2) * nu_post)
diff --git a/docs/examples/sql.md b/docs/examples/sql.md
index 0f20ea6..da26e45 100644
--- a/docs/examples/sql.md
+++ b/docs/examples/sql.md
@@ -73,8 +73,8 @@ Which results in this query:
 
 ```sql
 SELECT "group",
-       (0.0+COUNT(*)*SUM("sales")/COUNT(*))/(0.1+COUNT(*)) "mu",
-       POW((1+0.5*(0.0+SUM(POW("sales", 2))-POW((0.0+COUNT(*)*SUM("sales")/COUNT(*))/(0.1+COUNT(*)), 2)*(0.1+COUNT(*))))*(0.1+COUNT(*)+1)/((0.1+COUNT(*))*(0.1+COUNT(*)/2)), 0.5) "sigma",
+       (0.0+SUM("sales"))/(0.1+COUNT(*)) "mu",
+       POW((1+0.5*(0.0+SUM(POW("sales", 2))-POW((0.0+SUM("sales"))/(0.1+COUNT(*)), 2)*(0.1+COUNT(*))))*(0.1+COUNT(*)+1)/((0.1+COUNT(*))*(0.1+COUNT(*)/2)), 0.5) "sigma",
        2*(0.1+COUNT(*)/2) "nu"
 FROM "events"
 GROUP BY "group"
-- 
2.43.0


From 91497a89c795abe21c245a63796518f958663542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 11/36] fix: Exponential uses lam as the documented rate

---
 conjugate/distributions.py |  4 ++--
 docs/examples/thompson.md  | 19 ++++++++++---------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 357f89f..292f01b 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -215,10 +215,10 @@ class Exponential(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.expon(scale=self.lam)
+        return stats.expon(scale=1 / self.lam)
 
     def __mul__(self, other):
-        return Gamma(alpha=other, beta=1 / self.lam)
+        return Gamma(alpha=other, beta=self.lam)
 
     __rmul__ = __mul__
 
diff --git a/docs/examples/thompson.md b/docs/examples/thompson.md
index 114121c..8fd4385 100644
--- a/docs/examples/thompson.md
+++ b/docs/examples/thompson.md
@@ -12,7 +12,7 @@ which makes use of posterior distributions for the variable of interest.
 We will assume an exponential distribution wait time for each group with an unknown
 average wait time for each group.
 
-The conjugate prior of the exponential distribution is a gamma distribution.
+The conjugate prior of the exponential distribution's rate is a gamma distribution.
 
 The goal is to find the group with the minimum wait time.
 
@@ -25,10 +25,10 @@ import numpy as np
 
 import matplotlib.pyplot as plt
 
-lam = np.array([0.5, 0.55, 0.6, 0.8, 1])
-n_groups = len(lam)
+mean_wait_time = np.array([0.5, 0.55, 0.6, 0.8, 1])
+n_groups = len(mean_wait_time)
 
-true_dist = Exponential(lam=lam)
+true_dist = Exponential(lam=1 / mean_wait_time)
 ```
 
 We will create some helper functions to abstract:
@@ -63,7 +63,8 @@ def bayesian_update_stats(
 def thompson_step(estimate: Gamma, rng) -> Gamma:
     sample = estimate.dist.rvs(random_state=rng)
 
-    group_to_sample = np.argmin(sample)
+    # Largest rate is the smallest mean wait time
+    group_to_sample = np.argmax(sample)
 
     group_sample = sample_true_distribution(group_to_sample, rng=rng)
     x, n = bayesian_update_stats(group_to_sample, group_sample)
@@ -93,16 +94,16 @@ fig, axes = plt.subplots(ncols=2)
 fig.suptitle("Thompson Sampling using conjugate-models")
 
 ax = axes[0]
-estimate.set_max_value(2).plot_pdf(label=lam, ax=ax)
+estimate.set_max_value(3).plot_pdf(label=mean_wait_time, ax=ax)
 ax.legend(title="True Mean")
 ax.set(
-    xlabel="Mean Wait Time",
+    xlabel="Rate (1 / Mean Wait Time)",
     title="Posterior Distribution by Group",
 )
 
 ax = axes[1]
-n_times_sampled = estimate.beta - 1
-ax.scatter(lam, n_times_sampled / total_samples)
+n_times_sampled = estimate.alpha - 1
+ax.scatter(mean_wait_time, n_times_sampled / total_samples)
 ax.set(
     xlabel="True Mean Wait Time",
     ylabel="% of times sampled",
-- 
2.43.0


From 94c4f670ef6b45e3a2839301494988347ba94f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 12/36] fix: Dirichlet updates add sequences elementwise
 instead of concatenating them

---
 conjugate/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conjugate/models.py b/conjugate/models.py
index 4a1efdd..81fa871 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -429,6 +429,9 @@ def geometric_beta_predictive(
 
 
 def get_dirichlet_posterior_params(alpha_prior: NUMERIC, x: NUMERIC) -> NUMERIC:
+    if isinstance(alpha_prior, (list, tuple)) and isinstance(x, (list, tuple)):
+        return [alpha_prior_i + x_i for alpha_prior_i, x_i in zip(alpha_prior, x)]
+
     try:
         return alpha_prior + x
     except Exception:
-- 
2.43.0


From 1953df11b1495ef622ee3d7a15b1037ac7804686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 13/36] fix: von_mises_known_concentration adds the data to the
 prior resultant

---
 conjugate/models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 81fa871..56937f1 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1693,10 +1693,11 @@ def von_mises_known_concentration(
         VonMisesKnownConcentration posterior distribution
 
     """
-    sin_total_post = prior.a * sin(prior.b) + sin_total
-    a_post = kappa * sin_total_post
+    sin_total_post = prior.a * sin(prior.b) + kappa * sin_total
+    cos_total_post = prior.a * cos(prior.b) + kappa * cos_total
 
-    b_post = arctan2(sin_total_post, prior.a * cos(prior.b) + cos_total)
+    a_post = (sin_total_post**2 + cos_total_post**2) ** 0.5
+    b_post = arctan2(sin_total_post, cos_total_post)
 
     return VonMisesKnownConcentration(a=a_post, b=b_post)
 
-- 
2.43.0


From cfc94d240b2f93cff834e9c28a9c795272517a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 14/36] fix: VonMisesKnownConcentration log likelihood
 multiplies the cosine by the concentration

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 292f01b..359cfd9 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -921,7 +921,7 @@ class VonMisesKnownConcentration:
             log likelihood
 
         """
-        return self.a + cos(mu - self.b) - ln(i0(self.a))
+        return self.a * cos(mu - self.b) - ln(i0(self.a))
 
 
 @dataclass
-- 
2.43.0


From 165fd0ffefb5881407a9e0da34ab126c219cf336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 15/36] fix: multivariate normal updates use the given matrix
 inverse throughout

---
 conjugate/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conjugate/models.py b/conjugate/models.py
index 56937f1..3a21bc0 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1775,6 +1775,7 @@ def multivariate_normal_known_covariance(
         precision_0=precision_0,
         x_bar=x_bar,
         precision=precision,
+        inv=inv,
     )
 
     return MultivariateNormal(mu=mu_post, cov=inv(precision_post))
@@ -1832,6 +1833,7 @@ def multivariate_normal_known_precision(
         precision_0=precision_0,
         x_bar=x_bar,
         precision=precision,
+        inv=inv,
     )
 
     return MultivariateNormal(mu=mu_post, cov=inv(precision_post))
-- 
2.43.0


From 6ecf2d16f42300e42b83d218b65620c84a234871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 16/36] fix: an integer random state seeds a sampler once
 instead of once per draw

---
 conjugate/_beta_geometric.py |  3 +++
 conjugate/_compound_gamma.py |  3 +++
 conjugate/_random.py         | 14 ++++++++++++++
 conjugate/distributions.py   |  5 +++++
 4 files changed, 25 insertions(+)
 create mode 100644 conjugate/_random.py

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index d754a22..e042df7 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -5,6 +5,8 @@ import numpy as np
 from scipy import stats
 from scipy.special import betaln
 
+from conjugate._random import resolve_random_state
+
 
 def beta_geometric_pmf(x, a, b, one_start: bool = True):
     x, a, b = np.broadcast_arrays(x, a, b)
@@ -39,6 +41,7 @@ class beta_geometric:
     ):
         a, b = np.broadcast_arrays(self.a, self.b)
         size = np.broadcast_shapes(a.shape, b.shape, size or ())
+        random_state = resolve_random_state(random_state)
 
         p = stats.beta.rvs(a, b, size=size, random_state=random_state)
         result = stats.geom.rvs(p=p, size=size, random_state=random_state)
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index 49043a1..d1bb3e1 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -3,6 +3,8 @@ import numpy as np
 from scipy.special import betaln, xlog1py, xlogy
 from scipy.stats import gamma
 
+from conjugate._random import resolve_random_state
+
 
 def compound_gamma_pdf(x, a, b, q):
     x, a, b, q = np.broadcast_arrays(x, a, b, q)
@@ -33,6 +35,7 @@ class compound_gamma:
     ):
         a, b, q = np.broadcast_arrays(self.a, self.b, self.q)
         size = np.broadcast_shapes(a.shape, b.shape, q.shape, size or ())
+        random_state = resolve_random_state(random_state)
 
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
         return gamma.rvs(a, scale=1 / random_b, random_state=random_state)
diff --git a/conjugate/_random.py b/conjugate/_random.py
new file mode 100644
index 0000000..3a04b57
--- /dev/null
+++ b/conjugate/_random.py
@@ -0,0 +1,14 @@
+from numbers import Integral
+
+import numpy as np
+
+
+def resolve_random_state(random_state):
+    """Turn an integer seed into a random state to be shared by several draws.
+
+    Passing the same integer to every draw would restart the stream each time.
+    """
+    if isinstance(random_state, Integral):
+        return np.random.RandomState(random_state)
+
+    return random_state
diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 359cfd9..1ed1192 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -47,6 +47,7 @@ from scipy.special import gammaln, i0
 
 from conjugate._compound_gamma import compound_gamma
 from conjugate._beta_geometric import beta_geometric
+from conjugate._random import resolve_random_state
 from conjugate._typing import NUMERIC
 from conjugate.plot import (
     DirichletPlotDistMixin,
@@ -654,6 +655,7 @@ class NormalInverseGamma:
             samples from the normal distribution and optionally variance
 
         """
+        random_state = resolve_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         sample_beta = (
@@ -1070,6 +1072,7 @@ class NormalGamma:
             samples from the normal distribution
 
         """
+        random_state = resolve_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
         sigma = variance**0.5
         beta = stats.norm(loc=self.mu, scale=sigma).rvs(
@@ -1186,6 +1189,7 @@ class NormalWishart:
 
         """
 
+        random_state = resolve_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         mean = np.stack(
@@ -1274,6 +1278,7 @@ class NormalInverseWishart:
             samples from the normal distribution and optionally variance
 
         """
+        random_state = resolve_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         mean = np.stack(
-- 
2.43.0


From 89cc7d7d31ca88d15501ac59c9ffa25b81df01e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 17/36] fix: sampled variances follow the marginal of the
 variance; the precision factor applies to the mean only

---
 conjugate/distributions.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 1ed1192..fe4d943 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1033,7 +1033,7 @@ class NormalGamma:
             samples from the inverse gamma distribution
 
         """
-        precision = self.lam * self.gamma.dist.rvs(size=size, random_state=random_state)
+        precision = self.gamma.dist.rvs(size=size, random_state=random_state)
 
         return 1 / precision
 
@@ -1074,7 +1074,7 @@ class NormalGamma:
         """
         random_state = resolve_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
-        sigma = variance**0.5
+        sigma = (variance / self.lam) ** 0.5
         beta = stats.norm(loc=self.mu, scale=sigma).rvs(
             size=size, random_state=random_state
         )
@@ -1162,9 +1162,7 @@ class NormalWishart:
 
         """
 
-        variance = inv(
-            self.lam * self.wishart.dist.rvs(size=size, random_state=random_state)
-        )
+        variance = inv(self.wishart.dist.rvs(size=size, random_state=random_state))
 
         if size == 1:
             variance = variance[None, ...]
@@ -1198,7 +1196,7 @@ class NormalWishart:
                     size=1,
                     random_state=random_state,
                 )
-                for cov in variance
+                for cov in variance / self.lam
             ]
         )
 
@@ -1252,10 +1250,7 @@ class NormalInverseWishart:
             samples from the inverse wishart distribution
 
         """
-        variance = (
-            self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
-            / self.kappa
-        )
+        variance = self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
         if size == 1:
             variance = variance[None, ...]
 
@@ -1286,7 +1281,7 @@ class NormalInverseWishart:
                 stats.multivariate_normal(self.mu, cov=cov).rvs(
                     size=1, random_state=random_state
                 )
-                for cov in variance
+                for cov in variance / self.kappa
             ]
         )
 
-- 
2.43.0


From 3970a130c14cfa8fe172dc63844d8453e194ba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 18/36] fix: Wishart samplers keep the component shape in one
 dimension

---
 conjugate/distributions.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index fe4d943..b1ebaab 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1162,12 +1162,9 @@ class NormalWishart:
 
         """
 
-        variance = inv(self.wishart.dist.rvs(size=size, random_state=random_state))
+        precision = self.wishart.dist.rvs(size=size, random_state=random_state)
 
-        if size == 1:
-            variance = variance[None, ...]
-
-        return variance
+        return inv(np.reshape(precision, (size, *np.shape(self.W))))
 
     def sample_mean(
         self,
@@ -1193,12 +1190,11 @@ class NormalWishart:
         mean = np.stack(
             [
                 stats.multivariate_normal(self.mu, cov=cov).rvs(
-                    size=1,
-                    random_state=random_state,
+                    size=1, random_state=random_state
                 )
                 for cov in variance / self.lam
             ]
-        )
+        ).reshape(size, *np.shape(self.mu))
 
         if return_variance:
             return mean, variance
@@ -1251,10 +1247,8 @@ class NormalInverseWishart:
 
         """
         variance = self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
-        if size == 1:
-            variance = variance[None, ...]
 
-        return variance
+        return np.reshape(variance, (size, *np.shape(self.psi)))
 
     def sample_mean(
         self,
@@ -1283,7 +1277,7 @@ class NormalInverseWishart:
                 )
                 for cov in variance / self.kappa
             ]
-        )
+        ).reshape(size, *np.shape(self.mu))
 
         if return_variance:
             return mean, variance
-- 
2.43.0


From e06f139b355e2abd40c8e2fed79caa4c921f1cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 19/36] fix: stacked Dirichlet sampler accepts a random state

---
 conjugate/distributions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index b1ebaab..3e43778 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -134,8 +134,15 @@ class VectorizedDist:
         self.params = params
         self.dist = dist
 
-    def rvs(self, size: int = 1) -> np.ndarray:
-        return np.stack([self.dist(param).rvs(size=size) for param in self.params])
+    def rvs(self, size: int = 1, random_state=None) -> np.ndarray:
+        random_state = resolve_random_state(random_state)
+
+        return np.stack(
+            [
+                self.dist(param).rvs(size=size, random_state=random_state)
+                for param in self.params
+            ]
+        )
 
     def mean(self) -> np.ndarray:
         return np.stack([self.dist(param).mean() for param in self.params])
-- 
2.43.0


From 78f4a6de57b678d34ec8039f6e0709ca138f5243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 20/36] fix: plots accept a single color

---
 conjugate/plot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 2a00f98..3772767 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -5,6 +5,7 @@ from typing import Protocol
 
 import matplotlib.pyplot as plt
 from matplotlib.axes import Axes
+from matplotlib.colors import is_color_like
 from matplotlib.projections.polar import PolarAxes
 
 import numpy as np
@@ -57,6 +58,11 @@ def resolve_label(label: LABEL_INPUT, yy: np.ndarray):
     return label
 
 
+def _is_color_sequence(color) -> bool:
+    """Whether there is a color for each curve instead of one color for all."""
+    return isinstance(color, Iterable) and not is_color_like(color)
+
+
 class PlotDistMixin:
     """Base mixin in order to support plotting. Requires the dist attribute of the scipy distribution."""
 
@@ -178,7 +184,7 @@ class ContinuousPlotDistMixin(PlotDistMixin):
         else:
             label = None
 
-        if "color" in kwargs and isinstance(kwargs["color"], Iterable):
+        if _is_color_sequence(kwargs.get("color")):
             ax.set_prop_cycle(color=kwargs.pop("color"))
 
         ax.plot(x, yy, label=label, **kwargs)
@@ -340,7 +346,7 @@ class DiscretePlotMixin(PlotDistMixin):
         else:
             label = None
 
-        if "color" in kwargs and isinstance(kwargs["color"], Iterable):
+        if _is_color_sequence(kwargs.get("color")):
             ax.set_prop_cycle(color=kwargs.pop("color"))
 
         ax.plot(x, yy, mark, label=label, **kwargs)
-- 
2.43.0


From b5c9bfd813218d5933f38d7d936d4ddd1c74bf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 21/36] fix: conditional plots are normalised for each curve
 separately

---
 conjugate/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 3772767..7dbd05d 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -328,7 +328,7 @@ class DiscretePlotMixin(PlotDistMixin):
         yy = func(x)
 
         if conditional:
-            yy = yy / np.sum(yy)
+            yy = yy / np.sum(yy, axis=0)
 
             prefix = (
                 "Cumulative Probability $F(X \\leq x" if cdf else "Probability $f(x"
-- 
2.43.0


From 8fd2ed3af6b5ba4a795bd26db883dbde9fb67f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:43 +0000
Subject: [PATCH 22/36] fix: indexing outside the lanes of a distribution
 raises instead of returning all lanes

---
 conjugate/slice.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/conjugate/slice.py b/conjugate/slice.py
index b59f841..5b19d8e 100644
--- a/conjugate/slice.py
+++ b/conjugate/slice.py
@@ -1,5 +1,7 @@
 from dataclasses import asdict
 
+import numpy as np
+
 
 class SliceMixin:
     """Mixin in order to slice the parameters"""
@@ -9,12 +11,20 @@ class SliceMixin:
         return asdict(self)
 
     def __getitem__(self, key):
-        def take_slice(value, key):
+        new_params = {}
+        errors = []
+        any_sliced = False
+
+        for name, value in self.params.items():
             try:
-                return value[key]
-            except Exception:
-                return value
+                new_params[name] = value[key]
+                any_sliced = True
+            except Exception as error:
+                new_params[name] = value
+                if np.ndim(value) > 0:
+                    errors.append(error)
 
-        new_params = {k: take_slice(value=v, key=key) for k, v in self.params.items()}
+        if errors and not any_sliced:
+            raise errors[0]
 
         return self.__class__(**new_params)
-- 
2.43.0


From 61817351accdf4c021e07241769c1c56bfdf5995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 23/36] fix: Dirichlet plots accept a color for each curve

---
 conjugate/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 7dbd05d..2171e74 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -220,6 +220,9 @@ class DirichletPlotDistMixin(ContinuousPlotDistMixin):
         ax = self._settle_axis(ax=ax)
         xx = self._create_x_values()
 
+        if _is_color_sequence(kwargs.get("color")):
+            ax.set_prop_cycle(color=kwargs.pop("color"))
+
         labels = label_to_iterable(
             kwargs.pop("label", None), distribution_samples.shape[1]
         )
-- 
2.43.0


From 343e1fddbf7509679f528b4d2b8c040c2ccf8af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 24/36] fix: post-engagement script passes the prior by its
 name

---
 scripts/post-engagement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/post-engagement.py b/scripts/post-engagement.py
index da1ef69..a0daa37 100644
--- a/scripts/post-engagement.py
+++ b/scripts/post-engagement.py
@@ -53,7 +53,7 @@ if __name__ == "__main__":
     # centered around average but with some uncertainty
     prior = Beta.from_mean(mean=linkedin_average_rate, alpha=1)
     # Model for the data
-    posterior: Beta = binomial_beta(n=IMPRESSIONS, x=REACTIONS, beta_prior=prior)
+    posterior: Beta = binomial_beta(n=IMPRESSIONS, x=REACTIONS, prior=prior)
     # Inference
     n_posterior_samples = 5_000
     rng = np.random.default_rng(42)
-- 
2.43.0


From 3d65509e985593c718ad8de6a33c7bd988767b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 25/36] docs: leave the example pages as they were

---
 docs/examples/sql.md      |  4 ++--
 docs/examples/thompson.md | 19 +++++++++----------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/docs/examples/sql.md b/docs/examples/sql.md
index da26e45..0f20ea6 100644
--- a/docs/examples/sql.md
+++ b/docs/examples/sql.md
@@ -73,8 +73,8 @@ Which results in this query:
 
 ```sql
 SELECT "group",
-       (0.0+SUM("sales"))/(0.1+COUNT(*)) "mu",
-       POW((1+0.5*(0.0+SUM(POW("sales", 2))-POW((0.0+SUM("sales"))/(0.1+COUNT(*)), 2)*(0.1+COUNT(*))))*(0.1+COUNT(*)+1)/((0.1+COUNT(*))*(0.1+COUNT(*)/2)), 0.5) "sigma",
+       (0.0+COUNT(*)*SUM("sales")/COUNT(*))/(0.1+COUNT(*)) "mu",
+       POW((1+0.5*(0.0+SUM(POW("sales", 2))-POW((0.0+COUNT(*)*SUM("sales")/COUNT(*))/(0.1+COUNT(*)), 2)*(0.1+COUNT(*))))*(0.1+COUNT(*)+1)/((0.1+COUNT(*))*(0.1+COUNT(*)/2)), 0.5) "sigma",
        2*(0.1+COUNT(*)/2) "nu"
 FROM "events"
 GROUP BY "group"
diff --git a/docs/examples/thompson.md b/docs/examples/thompson.md
index 8fd4385..114121c 100644
--- a/docs/examples/thompson.md
+++ b/docs/examples/thompson.md
@@ -12,7 +12,7 @@ which makes use of posterior distributions for the variable of interest.
 We will assume an exponential distribution wait time for each group with an unknown
 average wait time for each group.
 
-The conjugate prior of the exponential distribution's rate is a gamma distribution.
+The conjugate prior of the exponential distribution is a gamma distribution.
 
 The goal is to find the group with the minimum wait time.
 
@@ -25,10 +25,10 @@ import numpy as np
 
 import matplotlib.pyplot as plt
 
-mean_wait_time = np.array([0.5, 0.55, 0.6, 0.8, 1])
-n_groups = len(mean_wait_time)
+lam = np.array([0.5, 0.55, 0.6, 0.8, 1])
+n_groups = len(lam)
 
-true_dist = Exponential(lam=1 / mean_wait_time)
+true_dist = Exponential(lam=lam)
 ```
 
 We will create some helper functions to abstract:
@@ -63,8 +63,7 @@ def bayesian_update_stats(
 def thompson_step(estimate: Gamma, rng) -> Gamma:
     sample = estimate.dist.rvs(random_state=rng)
 
-    # Largest rate is the smallest mean wait time
-    group_to_sample = np.argmax(sample)
+    group_to_sample = np.argmin(sample)
 
     group_sample = sample_true_distribution(group_to_sample, rng=rng)
     x, n = bayesian_update_stats(group_to_sample, group_sample)
@@ -94,16 +93,16 @@ fig, axes = plt.subplots(ncols=2)
 fig.suptitle("Thompson Sampling using conjugate-models")
 
 ax = axes[0]
-estimate.set_max_value(3).plot_pdf(label=mean_wait_time, ax=ax)
+estimate.set_max_value(2).plot_pdf(label=lam, ax=ax)
 ax.legend(title="True Mean")
 ax.set(
-    xlabel="Rate (1 / Mean Wait Time)",
+    xlabel="Mean Wait Time",
     title="Posterior Distribution by Group",
 )
 
 ax = axes[1]
-n_times_sampled = estimate.alpha - 1
-ax.scatter(mean_wait_time, n_times_sampled / total_samples)
+n_times_sampled = estimate.beta - 1
+ax.scatter(lam, n_times_sampled / total_samples)
 ax.set(
     xlabel="True Mean Wait Time",
     ylabel="% of times sampled",
-- 
2.43.0


From 168bf73302686bb2e91b722e9e270ed94306c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 26/36] fix: selecting no lane of a distribution with a number
 of trials gives an empty distribution

---
 conjugate/distributions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 3e43778..3256a7d 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -118,7 +118,7 @@ class Binomial(DiscretePlotMixin, SliceMixin):
 
     def __post_init__(self):
         if isinstance(self.n, np.ndarray):
-            self.max_value = self.n.max()
+            self.max_value = self.n.max(initial=0)
         else:
             self.max_value = self.n
 
@@ -300,7 +300,7 @@ class Hypergeometric(DiscretePlotMixin, SliceMixin):
 
     def __post_init__(self) -> None:
         if isinstance(self.N, np.ndarray):
-            self.max_value = self.N.max()
+            self.max_value = self.N.max(initial=0)
         else:
             self.max_value = self.N
 
@@ -352,7 +352,7 @@ class BetaBinomial(DiscretePlotMixin, SliceMixin):
 
     def __post_init__(self):
         if isinstance(self.n, np.ndarray):
-            self.max_value = self.n.max()
+            self.max_value = self.n.max(initial=0)
         else:
             self.max_value = self.n
 
@@ -378,7 +378,7 @@ class BetaNegativeBinomial(DiscretePlotMixin, SliceMixin):
 
     def __post_init__(self):
         if isinstance(self.n, np.ndarray):
-            self.max_value = self.n.max()
+            self.max_value = self.n.max(initial=0)
         else:
             self.max_value = self.n
 
-- 
2.43.0


From d7265c6b701db07c64973606d5e451c4152e866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 27/36] fix: a numpy integer index gives the univariate
 marginal of a multivariate distribution

---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 3256a7d..6362963 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -487,7 +487,7 @@ class MultivariateNormal:
         return stats.multivariate_normal(mean=self.mu, cov=self.cov)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             return Normal(mu=self.mu[key], sigma=self.cov[key, key] ** 0.5)
 
         return MultivariateNormal(mu=self.mu[key], cov=self.cov[key][:, key])
@@ -716,7 +716,7 @@ class MultivariateStudentT:
         return stats.multivariate_t(loc=self.mu, shape=self.sigma, df=self.nu)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             return StudentT(
                 mu=self.mu[key], sigma=self.sigma[key, key] ** 0.5, nu=self.nu
             )
-- 
2.43.0


From 8070e447a4f3dba2521e0721d87b6650989f13c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 28/36] fix: regression coefficient samples keep the component
 shape with one coefficient

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 6362963..2ef0dba 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -625,7 +625,7 @@ class NormalInverseGamma:
                 )
                 for v in variance
             ]
-        )
+        ).reshape(size, *np.shape(self.mu))
 
     def sample_mean(
         self,
-- 
2.43.0


From ce214a4ca8343d31f3f005bca24d2b6defffbbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 29/36] Revert "fix: regression coefficient samples keep the
 component shape with one coefficient"

This reverts commit 8070e447a4f3dba2521e0721d87b6650989f13c7.
---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 2ef0dba..6362963 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -625,7 +625,7 @@ class NormalInverseGamma:
                 )
                 for v in variance
             ]
-        ).reshape(size, *np.shape(self.mu))
+        )
 
     def sample_mean(
         self,
-- 
2.43.0


From 9a5a6b8a0d42637816b29fb975edfe116a986b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 30/36] fix: compound gamma sampler keeps the shape when one
 sample is requested

---
 conjugate/_compound_gamma.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index d1bb3e1..e6bdea5 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -38,7 +38,9 @@ class compound_gamma:
         random_state = resolve_random_state(random_state)
 
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
-        return gamma.rvs(a, scale=1 / random_b, random_state=random_state)
+        return gamma.rvs(
+            a, scale=1 / random_b, size=size, random_state=random_state
+        )
 
     def pdf(self, x):
         return compound_gamma_pdf(x, self.a, self.b, self.q)
-- 
2.43.0


From 0116a86895ff9d6cb68d46ebb567d3aee40bdc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 31/36] fix: a requested size of zero gives no samples

---
 conjugate/_beta_geometric.py | 2 +-
 conjugate/_compound_gamma.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index e042df7..484a018 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -40,7 +40,7 @@ class beta_geometric:
         random_state: np.random.Generator | None = None,
     ):
         a, b = np.broadcast_arrays(self.a, self.b)
-        size = np.broadcast_shapes(a.shape, b.shape, size or ())
+        size = np.broadcast_shapes(a.shape, b.shape, () if size is None else size)
         random_state = resolve_random_state(random_state)
 
         p = stats.beta.rvs(a, b, size=size, random_state=random_state)
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index e6bdea5..b8cefbd 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -34,13 +34,13 @@ class compound_gamma:
         random_state: np.random.Generator | None = None,
     ):
         a, b, q = np.broadcast_arrays(self.a, self.b, self.q)
-        size = np.broadcast_shapes(a.shape, b.shape, q.shape, size or ())
+        size = np.broadcast_shapes(
+            a.shape, b.shape, q.shape, () if size is None else size
+        )
         random_state = resolve_random_state(random_state)
 
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
-        return gamma.rvs(
-            a, scale=1 / random_b, size=size, random_state=random_state
-        )
+        return gamma.rvs(a, scale=1 / random_b, size=size, random_state=random_state)
 
     def pdf(self, x):
         return compound_gamma_pdf(x, self.a, self.b, self.q)
-- 
2.43.0


From f5a0c2ca0b20fc3ef6668bf33def9b4a992de4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 32/36] fix: normal-Wishart samplers accept nearly singular
 sampled covariances

---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 6362963..e2d4760 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1196,7 +1196,7 @@ class NormalWishart:
 
         mean = np.stack(
             [
-                stats.multivariate_normal(self.mu, cov=cov).rvs(
+                stats.multivariate_normal(self.mu, cov=cov, allow_singular=True).rvs(
                     size=1, random_state=random_state
                 )
                 for cov in variance / self.lam
@@ -1279,7 +1279,7 @@ class NormalInverseWishart:
 
         mean = np.stack(
             [
-                stats.multivariate_normal(self.mu, cov=cov).rvs(
+                stats.multivariate_normal(self.mu, cov=cov, allow_singular=True).rvs(
                     size=1, random_state=random_state
                 )
                 for cov in variance / self.kappa
-- 
2.43.0


From 8d3699502016a034098eb13ac9cba73e68c75f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 33/36] fix: vectorised uniform distributions can be plotted

---
 conjugate/distributions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index e2d4760..1859754 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -507,8 +507,15 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
     high: NUMERIC
 
     def __post_init__(self):
-        self.min_value = self.low
-        self.max_value = self.high
+        if isinstance(self.low, np.ndarray) and self.low.size > 0:
+            self.min_value = self.low.min()
+        else:
+            self.min_value = self.low
+
+        if isinstance(self.high, np.ndarray) and self.high.size > 0:
+            self.max_value = self.high.max()
+        else:
+            self.max_value = self.high
 
     @property
     def dist(self):
-- 
2.43.0


From 72e1cd2723bf3ff71ed64398ee30faa4c3db1bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 34/36] fix: a label function also labels a single curve

---
 conjugate/plot.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 2171e74..365b6c6 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -48,14 +48,11 @@ def resolve_label(label: LABEL_INPUT, yy: np.ndarray):
 
     https://stackoverflow.com/questions/73662931/matplotlib-plot-a-numpy-array-as-many-lines-with-a-single-label
     """
-    if yy.ndim == 1:
-        return label
-
-    ncols = yy.shape[1]
+    ncols = 1 if yy.ndim == 1 else yy.shape[1]
     if ncols != 1:
         return label_to_iterable(label, ncols)
 
-    return label
+    return label(0) if callable(label) else label
 
 
 def _is_color_sequence(color) -> bool:
-- 
2.43.0


From 92cf4bf462e0b03822cc5ab883b882fb0b7876ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:05 +0000
Subject: [PATCH 35/36] fix: Dirichlet.dist accepts a list or tuple of
 parameters

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 1859754..244d7cf 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -168,7 +168,7 @@ class Dirichlet(DirichletPlotDistMixin):
 
     @property
     def dist(self):
-        if self.alpha.ndim == 1:
+        if np.ndim(self.alpha) == 1:
             return stats.dirichlet(self.alpha)
 
         return VectorizedDist(self.alpha, dist=stats.dirichlet)
-- 
2.43.0


From ab776b5e411e4b8633eebf1cb7f9053220b49b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:34 +0000
Subject: [PATCH 36/36] fix: multivariate_normal returns the prior's parameters
 for an empty data matrix

---
 conjugate/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 3a21bc0..2ea8506 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1950,7 +1950,7 @@ def multivariate_normal(
         ```
     """
     n = X.shape[0]
-    X_mean = X.mean(axis=0)
+    X_mean = X.mean(axis=0) if n > 0 else prior.mu
     C = (X - X_mean).T @ (X - X_mean)
 
     mu_post = (prior.mu * prior.kappa + n * X_mean) / (prior.kappa + n)
-- 
2.43.0

