From c28af5518cc35565ac40306344588de018f289a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 01/36] fix: constant columns are not mistaken for tiny
 variance by the standardizer

The weighted mean of identical values (e.g. 0.1 repeated three times) can
differ from the value by rounding, so the column was divided by a scale of
order 1e-17. Any regularized fit then returned a huge, meaningless
coefficient for it.
---
 src/data.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/data.rs b/src/data.rs
index 82f7c0c..c03ba1b 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -316,7 +316,19 @@ where
             Array1::<F>::zeros(p)
         } else {
             let x_w: Array2<F> = &weights * x;
-            x_w.sum_axis(Axis(0)) / sum_weights
+            let mut means = x_w.sum_axis(Axis(0)) / sum_weights;
+            // The average of identical values can differ from that value by rounding. Use the
+            // exact value for columns that are constant over the weighted observations, so that
+            // the rounding error isn't taken for variance and blown up by the scaling.
+            for (col, mean) in x.columns().into_iter().zip(means.iter_mut()) {
+                let mut used = col.iter().zip(&weights).filter(|(_, w)| **w != F::zero());
+                if let Some((&first, _)) = used.next()
+                    && used.all(|(&x_ij, _)| x_ij == first)
+                {
+                    *mean = first;
+                }
+            }
+            means
         };
 
         let vars: Array1<F> = if n <= 1 {
-- 
2.43.0


From 1e148d928916b8f2efe334dad943e509bec03467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:54 +0000
Subject: [PATCH 02/36] fix: don't panic when a single observation carries all
 the weight

Standardizer::from_dataset asserted n_eff > 1, which aborted e.g. exact
leave-one-out fits with two observations. The single-row convention (unit
scale) applies.
---
 src/data.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index c03ba1b..c4f90bf 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -302,8 +302,8 @@ where
     /// term $`1/(1-1/n_eff)`$.
     ///
     /// For empty data (0 rows) the mean defaults to 0 and the std to 1.
-    /// For a single row the mean is that row's value and the std defaults to 1
-    /// (sample std is undefined with one observation).
+    /// For a single row (or a single row with any weight) the mean is that row's value and the std
+    /// defaults to 1 (sample std is undefined with one observation).
     fn from_dataset(data: &Dataset<F>) -> Self {
         let x = &data.x;
         let (n, p) = (x.nrows(), x.ncols());
@@ -331,10 +331,10 @@ where
             means
         };
 
-        let vars: Array1<F> = if n <= 1 {
+        // The sample variance is undefined if only a single observation has any weight.
+        let vars: Array1<F> = if n <= 1 || n_eff <= F::one() {
             Array1::<F>::ones(p)
         } else {
-            assert!(n_eff > F::one());
             let dx = x - means.clone();
             let dx2: Array2<F> = dx.mapv_into(|d| d * d);
             let dx2_w = weights * dx2;
-- 
2.43.0


From d3450254576d17e00c98c6a1735fcf93f4f09e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 03/36] fix: don't return parameters with an undefined
 likelihood as the optimum

If the initial guess had a linear predictor outside of the domain of the link
function (e.g. positive under the negative reciprocal link) its likelihood was
NaN. NaN blocked every improvement and sorts as the greatest likelihood, so
infeasible or non-stationary parameters were returned as a successful fit.
Infinite guesses (link(0) for all-zero counts under ridge) were returned as
is. Treat undefined likelihoods as impossible, fall back to simple guesses
if they are better than the default, and report an error if no parameters
with a finite likelihood are found.
---
 src/glm.rs  | 54 ++++++++++++++++++++++++++++++++++++++++++++++++++---
 src/irls.rs | 22 +++++++++++++++++-----
 2 files changed, 68 insertions(+), 8 deletions(-)

diff --git a/src/glm.rs b/src/glm.rs
index 335f869..2ad0579 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -2,11 +2,11 @@
 //! Models are fit such that $`<\mathbf{y}> = g^{-1}(\mathbf{X}*\mathbf{\beta})`$ where g is the
 //! link function.
 
-use crate::irls::IrlsStep;
+use crate::irls::{IrlsStep, data_like, get_reg};
 use crate::link::{Link, Transform};
 use crate::{
     data::Dataset,
-    error::RegressionResult,
+    error::{RegressionError, RegressionResult},
     fit::{Fit, options::FitOptions},
     irls::Irls,
     model::Model,
@@ -170,7 +170,7 @@ pub trait Glm: Sized {
             // The guess is given in external space, so it should be mapped to the internal before
             // passing to IRLS.
             .map(|b| model.data.transform_beta(b))
-            .unwrap_or_else(|| Self::init_guess(&model.data));
+            .unwrap_or_else(|| feasible_guess::<Self, F>(&model.data, &options));
 
         let mut irls: Irls<Self, F> = Irls::new(model, initial, options);
 
@@ -180,11 +180,59 @@ pub trait Glm: Sized {
             iter.max_by(|a, b| a.like.total_cmp(&b.like))
         })?
         .unwrap_or_else(|| irls.make_last_step());
+        // If the likelihood is nowhere defined along the iteration then there is no fit.
+        if !optimum.like.is_finite() {
+            return Err(RegressionError::BadInput(
+                "No parameters with a finite likelihood were found. Consider passing an initial guess."
+                    .to_string(),
+            ));
+        }
 
         Ok(Fit::new(&model.data, optimum, irls))
     }
 }
 
+/// The default initial guess, unless it is worse than having no covariate effects at all. That can
+/// happen if the linear predictor of some observation is out of the domain of the link function,
+/// or if the design matrix is (nearly) singular.
+fn feasible_guess<M, F>(data: &Dataset<F>, options: &FitOptions<F>) -> Array1<F>
+where
+    M: Glm,
+    F: Float,
+{
+    let reg = get_reg(options, data.x.ncols(), data.has_intercept);
+    // An infinite prediction can't be iterated from, even if its likelihood is defined.
+    let like = |b: &Array1<F>| {
+        let mu = M::mean(&data.linear_predictor_std(b));
+        if mu.iter().all(|m| m.is_finite()) {
+            data_like::<M, F>(data, b) + reg.likelihood(b)
+        } else {
+            F::neg_infinity()
+        }
+    };
+    let mut best = M::init_guess(data);
+    let mut best_like = like(&best);
+
+    let zeros = Array1::<F>::zeros(data.x.ncols());
+    let mut candidates = vec![zeros.clone()];
+    if data.has_intercept {
+        // The intercept alone should reproduce the average response.
+        let y_bar: F = data.weighted_sum(&data.y) / data.sum_weights();
+        let mut intercept_only = zeros;
+        intercept_only[0] = M::Link::func(y_bar);
+        candidates.push(intercept_only);
+    }
+    for candidate in candidates {
+        let candidate_like = like(&candidate);
+        let invalid = best.iter().any(|b| !b.is_finite());
+        if invalid || candidate_like > best_like {
+            best = candidate;
+            best_like = candidate_like;
+        }
+    }
+    best
+}
+
 #[cfg(test)]
 mod tests {
     use crate::{Linear, ModelBuilder};
diff --git a/src/irls.rs b/src/irls.rs
index e036633..87fb141 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -57,7 +57,7 @@ where
     pub(crate) fn new(model: &'a Model<M, F>, initial: Array1<F>, options: FitOptions<F>) -> Self {
         let data = &model.data;
         let reg = get_reg(&options, data.x.ncols(), data.has_intercept);
-        let initial_like_data: F = M::log_like(data, &initial);
+        let initial_like_data: F = data_like::<M, F>(data, &initial);
         Self {
             model: PhantomData,
             data,
@@ -199,7 +199,7 @@ where
         };
 
         // This is the raw, unregularized and unaugmented
-        let next_like_data = M::log_like(self.data, &next_guess);
+        let next_like_data = data_like::<M, F>(self.data, &next_guess);
 
         // The augmented likelihood to maximize may not be the same as the regularized model
         // likelihood.
@@ -259,7 +259,7 @@ where
             // the best model likelihood in the step search.
             // NOTE: It's possible there are some edge cases with an inconsistency, given that the
             // checks above use the augmented likelihood and this checks directly.
-            M::log_like(self.data, &b) + self.reg.likelihood(&b) // unaugmented
+            data_like::<M, F>(self.data, &b) + self.reg.likelihood(&b) // unaugmented
             // M::log_like(self.data, &b) + self.reg.irls_like(&b) // augmented
         };
         let beta_tol_factor = num_traits::Float::sqrt(self.guess.mapv(|b| F::one() + b * b).sum());
@@ -271,12 +271,24 @@ where
 
         // If the step multiplier is not zero, it found a better guess
         let next_guess = &next_guess * step_mult + &self.guess * (F::one() - step_mult);
-        let next_like_data = M::log_like(self.data, &next_guess);
+        let next_like_data = data_like::<M, F>(self.data, &next_guess);
 
         Some(self.step_with(next_guess, next_like_data))
     }
 }
 
+/// The log-likelihood of the data, where parameters that give some observation a linear predictor
+/// outside of the domain of the link (with an undefined likelihood) are taken to be impossible.
+/// NaN likelihoods aren't ordered, so they'd block improvements and sort as optimal.
+pub(crate) fn data_like<M: Glm, F: Float>(data: &Dataset<F>, regressors: &Array1<F>) -> F {
+    let like = M::log_like(data, regressors);
+    if like.is_nan() {
+        F::neg_infinity()
+    } else {
+        like
+    }
+}
+
 fn small_delta<F>(new: F, old: F, tol: F) -> bool
 where
     F: Float,
@@ -314,7 +326,7 @@ where
 }
 
 /// Generate a regularizer from the set of options
-fn get_reg<F: Float>(
+pub(crate) fn get_reg<F: Float>(
     options: &FitOptions<F>,
     n: usize,
     use_intercept: bool,
-- 
2.43.0


From 2c3035f49ae4c686e63729b6e7f2bf673ad3c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:08 +0000
Subject: [PATCH 04/36] fix: observations with zero frequency don't affect the
 likelihood

0 * NaN poisoned the total likelihood if the linear predictor of an
observation that occurs zero times was out of the domain of the link.
---
 src/glm.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/glm.rs b/src/glm.rs
index 2ad0579..3982e1d 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -77,7 +77,16 @@ pub trait Glm: Sized {
         F: Float,
     {
         // the total likelihood prior to regularization
-        let terms = Self::log_like_terms(data, regressors);
+        let mut terms = Self::log_like_terms(data, regressors);
+        // Observations that occur zero times don't contribute, even if the parameters aren't valid
+        // for them.
+        if let Some(freqs) = &data.freqs {
+            terms.zip_mut_with(freqs, |l, f| {
+                if f.is_zero() {
+                    *l = F::zero()
+                }
+            });
+        }
         let weighted_terms = data.apply_total_weights(terms);
         weighted_terms.sum()
     }
-- 
2.43.0


From 334e87f59def716659d31e539a4460f53ade330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 05/36] fix: reject binomial counts above the number of trials

A count y > N has no saturated likelihood (it is NaN), so every deviance-based
statistic of the fit was NaN instead of the model failing to build.
---
 src/response/binomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/response/binomial.rs b/src/response/binomial.rs
index c73f9cc..a00659b 100644
--- a/src/response/binomial.rs
+++ b/src/response/binomial.rs
@@ -21,6 +21,9 @@ pub struct Binomial<const N: BinDom>;
 
 impl<const N: BinDom> Yval<Binomial<N>> for BinDom {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
+        if self > N {
+            return Err(RegressionError::InvalidY(self.to_string()));
+        }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
-- 
2.43.0


From bca8a2072454a35d1d1949b2deb5e34920ed28a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 06/36] fix: reject NaN and infinite responses for the positive
 families

NaN compares false with zero, so it was accepted as an exponential, gamma or
inverse Gaussian response and the fit silently returned NaN.
---
 src/response/exponential.rs      | 4 ++--
 src/response/gamma.rs            | 4 ++--
 src/response/inverse_gaussian.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/response/exponential.rs b/src/response/exponential.rs
index 2d6f572..d7bc351 100644
--- a/src/response/exponential.rs
+++ b/src/response/exponential.rs
@@ -30,7 +30,7 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -41,7 +41,7 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index bdcbec8..263af0f 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -29,7 +29,7 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -40,7 +40,7 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/inverse_gaussian.rs b/src/response/inverse_gaussian.rs
index 2c26cbd..327265b 100644
--- a/src/response/inverse_gaussian.rs
+++ b/src/response/inverse_gaussian.rs
@@ -24,7 +24,7 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -35,7 +35,7 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0. && self.is_finite()) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
-- 
2.43.0


From 24251c7cb860dfcb7024e4ba0f92fa9d6bc2af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 07/36] fix: report weights with the wrong number of entries as
 bad input

They panicked in ndarray broadcasting, or for a single entry were silently
broadcast to every observation.
---
 src/model.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/model.rs b/src/model.rs
index ffb561f..a12719f 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -203,6 +203,22 @@ where
             ));
         }
 
+        // The same goes for the weights
+        if let Some(weights) = &self.var_weights
+            && n_data != weights.len()
+        {
+            return Err(RegressionError::BadInput(
+                "Variance weights must have same dimension as observations".to_string(),
+            ));
+        }
+        if let Some(freqs) = &self.freq_weights
+            && n_data != freqs.len()
+        {
+            return Err(RegressionError::BadInput(
+                "Frequency weights must have same dimension as observations".to_string(),
+            ));
+        }
+
         // Check if the data is under-constrained
         if n_data < self.data_x.ncols() {
             // The regression can find a solution if n_data == ncols, but there will be
-- 
2.43.0


From 77800d37344b8268f09c62c1a0d3c5561feeba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 08/36] fix: penalize all covariates in pvalue_exact() for
 models without an intercept

The reduced models were marked as having an intercept, which exempted their
first covariate from the regularization used in the full fit.
---
 src/fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index c03d6d8..34a2083 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1021,7 +1021,7 @@ where
             linear_offset: self.data.linear_offset.clone(),
             weights: self.data.weights.clone(),
             freqs: self.data.freqs.clone(),
-            has_intercept: !is_intercept,
+            has_intercept: self.data.has_intercept && !is_intercept,
             // It shouldn't be necessary to standardize again. Each individual column should
             // already be standardized, if the full dataset was.
             standardizer: None,
-- 
2.43.0


From 8586f22ba96953d9d51b7eaab047123251c74341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:57 +0000
Subject: [PATCH 09/36] fix: deviance residuals of perfectly fit observations
 are zero instead of NaN

The deviance term of such an observation can be slightly negative by rounding.
---
 src/fit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index 34a2083..a08bdc0 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -195,7 +195,10 @@ where
         self.dev_terms.get_or_init(|| {
             let ll_terms: Array1<F> = M::log_like_terms(self.data, &self.result_std);
             let ll_sat: Array1<F> = self.data.y.mapv(M::log_like_sat);
-            let terms = (ll_sat - ll_terms) * F::two();
+            // No term can be negative except by rounding, which shouldn't propagate as a NaN to the
+            // square roots in the deviance residuals.
+            let terms = ((ll_sat - ll_terms) * F::two())
+                .mapv_into(|d| if d < F::zero() { F::zero() } else { d });
             self.data.apply_var_weights(terms)
         })
     }
-- 
2.43.0


From 34a70c65a3b7d1581ae04bec4a0398065da58dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:01 +0000
Subject: [PATCH 10/36] fix: r_sq() is 1 - D/D_0 for regularized fits too

The likelihood ratio includes the penalty while the deviance does not, so the
null deviance was off by twice the penalty.
---
 src/fit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index a08bdc0..248c325 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -974,7 +974,8 @@ where
     // NOTE: that this implementation would be valid as a pseudo-$`R^2`$ for all GLMs, but it's
     // mostly expected in the OLS context and probably wouldn't add much.
     pub fn r_sq(&self) -> F {
-        let lr = self.lr_test();
+        // The penalty isn't part of the deviances, so exclude it from the likelihood ratio.
+        let lr = self.lr_test() - F::two() * self.reg.likelihood(&self.result_std);
         lr / (lr + self.deviance())
     }
 
-- 
2.43.0


From c81352bb5d11c38cab785b4d6ba0c6559ea24772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:52 +0000
Subject: [PATCH 11/36] fix: the history of a MaxIter error is in external
 coordinates

Fit::history is transformed to the scale of the data but the history in the
error was on the internal standardized one, so the last guess couldn't be
passed as the initial guess of another attempt.
---
 src/glm.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/glm.rs b/src/glm.rs
index 3982e1d..3f405af 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -187,6 +187,20 @@ pub trait Glm: Sized {
         // we've got the optimum. The full history is stored in the IRLS structure.
         let optimum: IrlsStep<F> = process_results(irls.by_ref(), |iter| {
             iter.max_by(|a, b| a.like.total_cmp(&b.like))
+        })
+        .map_err(|err| match err {
+            // As in the Fit object, the public history should be on the external scale.
+            RegressionError::MaxIter { n_iter, history } => RegressionError::MaxIter {
+                n_iter,
+                history: history
+                    .into_iter()
+                    .map(|IrlsStep { guess, like }| IrlsStep {
+                        guess: model.data.inverse_transform_beta(guess),
+                        like,
+                    })
+                    .collect(),
+            },
+            err => err,
         })?
         .unwrap_or_else(|| irls.make_last_step());
         // If the likelihood is nowhere defined along the iteration then there is no fit.
-- 
2.43.0


From 7e5e62beab658f6a9a875fd0ee3e6c726ce29fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:55 +0000
Subject: [PATCH 12/36] fix: the natural parameter of the cloglog link doesn't
 overflow

exp(exp(x)) is infinite for x > 6.56, where the log-likelihood should be
finite (and zero for y = 1).
---
 src/response/logistic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/response/logistic.rs b/src/response/logistic.rs
index d96904d..4a8e8c7 100644
--- a/src/response/logistic.rs
+++ b/src/response/logistic.rs
@@ -145,7 +145,11 @@ pub mod link {
     }
     impl Transform for Cloglog {
         fn nat_param<F: Float>(lin_pred: Array1<F>) -> Array1<F> {
-            lin_pred.mapv(|x| num_traits::Float::ln(num_traits::Float::exp(x).exp_m1()))
+            // This is ln(exp(exp(x)) - 1), arranged so as not to overflow for x > ~6.5.
+            lin_pred.mapv(|x| {
+                let exp_x = num_traits::Float::exp(x);
+                exp_x + num_traits::Float::ln(-(-exp_x).exp_m1())
+            })
         }
         fn d_nat_param<F: Float>(lin_pred: &Array1<F>) -> Array1<F> {
             let neg_exp_lin = -lin_pred.mapv(num_traits::Float::exp);
-- 
2.43.0


From 5d92024001c56e771b9eaf9aae23abd66f1dfe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:09 +0000
Subject: [PATCH 13/36] fix: the Fisher information under L1 doesn't include
 the ADMM penalty parameter

The augmentation rho of the solver was added to the diagonal of the
information (including the intercept), so the covariance, leverage and score
and Wald statistics of a lasso or elastic net fit depended on the path taken
by the algorithm.
---
 src/fit.rs            |  2 +-
 src/regularization.rs | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index 248c325..a555881 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -333,7 +333,7 @@ where
     /// coefficients. The regularization is included here.
     fn fisher_std(&self, params: &Array1<F>) -> Array2<F> {
         let fisher = self.fisher_data_std(params);
-        self.reg.as_ref().irls_mat(fisher, params)
+        self.reg.as_ref().fisher(fisher, params)
     }
 
     /// The inverse of the (regularized) fisher information matrix, in the internal standardized
diff --git a/src/regularization.rs b/src/regularization.rs
index f9b7ba3..f571238 100644
--- a/src/regularization.rs
+++ b/src/regularization.rs
@@ -38,6 +38,12 @@ where
     /// typically only on the diagonal.
     fn irls_mat(&self, mat: Array2<F>, regressors: &Array1<F>) -> Array2<F>;
 
+    /// Subtracts the Hessian of the un-augmented penalty from the information matrix. Without ADMM
+    /// this is the same as the adjustment in the IRLS step.
+    fn fisher(&self, mat: Array2<F>, regressors: &Array1<F>) -> Array2<F> {
+        self.irls_mat(mat, regressors)
+    }
+
     /// Return the next guess under regularization given the current guess and the RHS and LHS of
     /// the unregularized IRLS matrix solution equation for the next guess.
     fn next_guess(
@@ -218,6 +224,11 @@ impl<F: Float> IrlsReg<F> for Lasso<F> {
         mat
     }
 
+    /// The L1 penalty has no curvature, and rho is only an internal of the algorithm.
+    fn fisher(&self, mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
+        mat
+    }
+
     fn terminate_ok(&self, tol: F) -> bool {
         // Expressed like this, it should perhaps instead be an epsilon^2.
         let n: usize = self.dual.len();
@@ -333,6 +344,13 @@ impl<F: Float> IrlsReg<F> for ElasticNet<F> {
         mat
     }
 
+    /// Only the L2 penalty has any curvature, and rho is only an internal of the algorithm.
+    fn fisher(&self, mut mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
+        let mut mat_diag: ArrayViewMut1<F> = mat.diag_mut();
+        mat_diag += &self.l2_vec;
+        mat
+    }
+
     fn terminate_ok(&self, tol: F) -> bool {
         // Expressed like this, it should perhaps instead be an epsilon^2.
         let n: usize = self.dual.len();
-- 
2.43.0


From 909c95cf70a75d2b7f3b8f72a37aca0717747d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:46 +0000
Subject: [PATCH 14/36] fix: the null likelihood is defined for responses at
 the edge of their domain

For all-zero counts or all-equal binary responses (which can be fit with
regularization) the null intercept is infinite and the likelihood was NaN, as
were the statistics using it. Also don't index into an empty set of parameters.
---
 src/fit.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index a555881..b756fd4 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -592,12 +592,20 @@ where
                     // likelihood contribution is the same for all observations.
                     let nat_par = M::Link::nat_param(array![intercept]);
                     // The null likelihood per observation
-                    let null_like_one: F = M::log_like_natural(y_bar, nat_par[0]);
+                    let null_like_one: F = if intercept.is_finite() {
+                        M::log_like_natural(y_bar, nat_par[0])
+                    } else {
+                        // The average response is at the edge of its domain (e.g. all counts are
+                        // zero), so the likelihood is given by its limit.
+                        M::log_like_sat(y_bar)
+                    };
                     // just multiply the average likelihood by the number of data points, since every term is the same.
                     let null_like_total = self.data.sum_weights() * null_like_one;
                     let null_params: Array1<F> = {
                         let mut par = Array1::<F>::zeros(self.n_par);
-                        par[0] = intercept;
+                        if self.data.has_intercept {
+                            par[0] = intercept;
+                        }
                         par
                     };
                     (null_like_total, null_params)
-- 
2.43.0


From d520e3b42acf1010990e8c37fc556f8d19a2b7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 15/36] fix: p-values are NaN instead of panicking without
 residual degrees of freedom

Regularized (or exactly determined) fits with K >= N unwrapped an invalid
Student-t or F distribution.
---
 src/fit.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index b756fd4..816315f 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1114,6 +1114,10 @@ where
             DispersionType::FreeDispersion => {
                 use statrs::distribution::StudentsT;
                 let df = self.ndf().to_f64().unwrap();
+                // There is no uncertainty estimate without any residual degrees of freedom.
+                if df <= 0.0 {
+                    return Ok(Array1::from_elem(self.n_par, F::nan()));
+                }
                 let t_dist = StudentsT::new(0.0, 1.0, df).unwrap();
                 z.mapv(|zi| {
                     let abs_z = num_traits::Float::abs(zi).to_f64().unwrap();
@@ -1154,8 +1158,13 @@ where
                 DispersionType::FreeDispersion => {
                     use statrs::distribution::FisherSnedecor;
                     let f_stat = delta_d / phi_full;
-                    let f_dist = FisherSnedecor::new(1.0, ndf_f64).unwrap();
-                    f_dist.sf(f_stat.to_f64().unwrap())
+                    if ndf_f64 > 0.0 {
+                        let f_dist = FisherSnedecor::new(1.0, ndf_f64).unwrap();
+                        f_dist.sf(f_stat.to_f64().unwrap())
+                    } else {
+                        // There is no uncertainty estimate without any residual degrees of freedom.
+                        f64::NAN
+                    }
                 }
             };
             pvals[k] = F::from(p).unwrap();
-- 
2.43.0


From 3e656236d2e9c131312debc36c9c1ba35529cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 16/36] fix: the binomial likelihood doesn't overflow for large
 linear predictors

---
 src/response/binomial.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/response/binomial.rs b/src/response/binomial.rs
index a00659b..a17f0eb 100644
--- a/src/response/binomial.rs
+++ b/src/response/binomial.rs
@@ -49,7 +49,13 @@ impl<const N: BinDom> Glm for Binomial<N> {
     /// that for logistic regression, but it is adjusted for the maximum value.
     fn log_partition<F: Float>(nat_par: F) -> F {
         let n: F = F::from(N).unwrap();
-        n * num_traits::Float::exp(nat_par).ln_1p()
+        // The exponential is only taken of non-positive numbers so that it can't overflow.
+        let pos_part = if nat_par > F::zero() {
+            nat_par
+        } else {
+            F::zero()
+        };
+        n * (pos_part + num_traits::Float::exp(-num_traits::Float::abs(nat_par)).ln_1p())
     }
 
     fn variance<F: Float>(mean: F) -> F {
-- 
2.43.0


From aaf8244c5617daf1b0edc47a2e8708b91fc06f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 17/36] fix: observations with zero frequency don't affect the
 deviance and dispersion

---
 src/data.rs | 11 ++++++-----
 src/glm.rs  | 11 +----------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index c4f90bf..2666147 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -94,12 +94,13 @@ where
         }
     }
 
-    /// Multiply the input by the frequency weights
-    pub(crate) fn apply_freq_weights(&self, rhs: Array1<F>) -> Array1<F> {
-        match &self.freqs {
-            None => rhs,
-            Some(f) => f * rhs,
+    /// Multiply the input by the frequency weights. Observations that occur zero times don't
+    /// contribute, even if the value is undefined for them.
+    pub(crate) fn apply_freq_weights(&self, mut rhs: Array1<F>) -> Array1<F> {
+        if let Some(f) = &self.freqs {
+            rhs.zip_mut_with(f, |r, &f| *r = if f.is_zero() { f } else { f * *r });
         }
+        rhs
     }
 
     /// multiply the input vector element-wise by the weights, if they exist
diff --git a/src/glm.rs b/src/glm.rs
index 3f405af..2d0825f 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -77,16 +77,7 @@ pub trait Glm: Sized {
         F: Float,
     {
         // the total likelihood prior to regularization
-        let mut terms = Self::log_like_terms(data, regressors);
-        // Observations that occur zero times don't contribute, even if the parameters aren't valid
-        // for them.
-        if let Some(freqs) = &data.freqs {
-            terms.zip_mut_with(freqs, |l, f| {
-                if f.is_zero() {
-                    *l = F::zero()
-                }
-            });
-        }
+        let terms = Self::log_like_terms(data, regressors);
         let weighted_terms = data.apply_total_weights(terms);
         weighted_terms.sum()
     }
-- 
2.43.0


From f744755531aef23c25235dead7c86658d4d7ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:10 +0000
Subject: [PATCH 18/36] fix: pvalue_exact() starts the reduced fits from a
 sensible guess

---
 src/fit.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 816315f..d1bacc1 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1042,24 +1042,11 @@ where
             model: PhantomData::<M>,
             data: data_reduced,
         };
-        // Start with the non-excluded parameters at the values from the main fit.
-        let init_guess = if is_intercept {
-            // For the intercept term, we need to use the original unscaled data, or else the
-            // transformation mixes the intercept with the other terms. This number is supposed to
-            // represent the model deviance from excluding the *external* intercept term.
-            self.result.slice(s![1..]).to_owned()
-        } else {
-            // The data is already standardized in the non-intercept case, so we should start the
-            // the standardized parameters, removing the covariate of interest.
-            concatenate![
-                Axis(0),
-                self.result_std.slice(s![..i]),
-                self.result_std.slice(s![i + 1..])
-            ]
-        };
         let fit_options = {
             let mut fit_options = self.options.clone();
-            fit_options.init_guess = Some(init_guess);
+            // Use the default guess. The remaining parameters of the main fit (or an initial guess
+            // for it) can be far from sensible without the excluded one.
+            fit_options.init_guess = None;
             fit_options
         };
         let fit_reduced = model_reduced.with_options(fit_options).fit()?;
-- 
2.43.0


From bc32b973fb79af896ffbd8eb1fc76ded3b3c0c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 19/36] fix: undefined test statistics give NaN p-values
 instead of panicking

---
 src/fit.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index d1bacc1..062f1c7 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1108,6 +1108,10 @@ where
                 let t_dist = StudentsT::new(0.0, 1.0, df).unwrap();
                 z.mapv(|zi| {
                     let abs_z = num_traits::Float::abs(zi).to_f64().unwrap();
+                    // The statistic is undefined for a zero coefficient without uncertainty.
+                    if abs_z.is_nan() {
+                        return F::nan();
+                    }
                     F::from(2.0 * t_dist.sf(abs_z)).unwrap()
                 })
             }
@@ -1145,7 +1149,8 @@ where
                 DispersionType::FreeDispersion => {
                     use statrs::distribution::FisherSnedecor;
                     let f_stat = delta_d / phi_full;
-                    if ndf_f64 > 0.0 {
+                    // The statistic is undefined if both models are a perfect fit.
+                    if ndf_f64 > 0.0 && !f_stat.is_nan() {
                         let f_dist = FisherSnedecor::new(1.0, ndf_f64).unwrap();
                         f_dist.sf(f_stat.to_f64().unwrap())
                     } else {
-- 
2.43.0


From 3e01ff2dcde0acf1a65a65114ddd4b2a92f168c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:17 +0000
Subject: [PATCH 20/36] fix: find a feasible start for singular designs without
 an intercept

---
 src/glm.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/glm.rs b/src/glm.rs
index 2d0825f..24a38a9 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -194,8 +194,10 @@ pub trait Glm: Sized {
             err => err,
         })?
         .unwrap_or_else(|| irls.make_last_step());
-        // If the likelihood is nowhere defined along the iteration then there is no fit.
-        if !optimum.like.is_finite() {
+        // If the likelihood is nowhere defined along the iteration then there is no fit. The
+        // predictions can be infinite at the edge of the domain even if the likelihood is defined.
+        let mu = Self::mean(&model.data.linear_predictor_std(&optimum.guess));
+        if !optimum.like.is_finite() || !model.data.freq_sum(&mu).is_finite() {
             return Err(RegressionError::BadInput(
                 "No parameters with a finite likelihood were found. Consider passing an initial guess."
                     .to_string(),
@@ -235,6 +237,8 @@ where
         let mut intercept_only = zeros;
         intercept_only[0] = M::Link::func(y_bar);
         candidates.push(intercept_only);
+    } else {
+        candidates.push(ridge_guess::<M, F>(data));
     }
     for candidate in candidates {
         let candidate_like = like(&candidate);
@@ -247,6 +251,26 @@ where
     best
 }
 
+/// As [`Glm::init_guess`], where a small ridge penalty picks a finite solution in case the design
+/// matrix is (nearly) singular.
+fn ridge_guess<M, F>(data: &Dataset<F>) -> Array1<F>
+where
+    M: Glm,
+    F: Float,
+{
+    let y_bar: F = data.y.mean().unwrap_or_else(F::zero);
+    let mut link_y: Array1<F> = data.y.mapv(|y| M::Link::func(F::half() * (y + y_bar)));
+    if let Some(off) = &data.linear_offset {
+        link_y -= off;
+    }
+    let mut x_mat: Array2<F> = data.x_conj().dot(&data.x);
+    let ridge = x_mat.diag().sum() * num_traits::Float::sqrt(F::epsilon());
+    x_mat.diag_mut().mapv_inplace(|d| d + ridge);
+    x_mat
+        .solveh_into(data.x_conj().dot(&link_y))
+        .unwrap_or_else(|_| Array1::<F>::zeros(data.x.ncols()))
+}
+
 #[cfg(test)]
 mod tests {
     use crate::{Linear, ModelBuilder};
-- 
2.43.0


From 988936c3eed0e6eb524be6aa610e5662ed44555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 21/36] fix: the null likelihood with offsets doesn't panic
 when its fit doesn't converge

---
 src/fit.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 062f1c7..fb31970 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -7,7 +7,7 @@ use crate::response::Response;
 use crate::{
     Linear,
     data::{Dataset, one_pad},
-    error::RegressionResult,
+    error::{RegressionError, RegressionResult},
     glm::{DispersionType, Glm},
     irls::{Irls, IrlsStep},
     link::{Link, Transform},
@@ -633,26 +633,34 @@ where
                                 standardizer: None,
                             },
                         };
-                        // TODO: Make this function return an error, although it's
-                        // difficult to imagine this case happening.
                         // TODO: Should the tolerance of this fit be stricter?
                         // The intercept should not be regularized
                         let null_fit = null_model
                             .fit_options()
                             // There shouldn't be too much trouble fitting this
-                            // single-parameter fit, but there shouldn't be harm in
-                            // using the same maximum as in the original model.
-                            .max_iter(self.options.max_iter)
-                            .fit()
-                            .expect("Could not fit null model!");
+                            // single-parameter fit, but the original model may have been limited
+                            // to few iterations from a good initial guess.
+                            .max_iter(self.options.max_iter.max(FitOptions::<F>::default().max_iter))
+                            .fit();
+                        let (null_like, intercept) = match null_fit {
+                            Ok(fit) => (fit.model_like, fit.result_std[0]),
+                            // The optimum may be at infinity (e.g. all counts are zero), in which
+                            // case the iteration approaches the limit of the likelihood.
+                            Err(RegressionError::MaxIter { history, .. }) => history
+                                .iter()
+                                .map(|step| (step.like, step.guess[0]))
+                                .max_by(|a, b| a.0.total_cmp(&b.0))
+                                .unwrap_or((F::nan(), F::nan())),
+                            Err(_) => (F::nan(), F::nan()),
+                        };
                         let null_params: Array1<F> = {
                             let mut par = Array1::<F>::zeros(self.n_par);
                             // there is only one parameter in this fit. It should be the same as
                             // the external result since this model doesn't have standardization.
-                            par[0] = null_fit.result_std[0];
+                            par[0] = intercept;
                             par
                         };
-                        (null_fit.model_like, null_params)
+                        (null_like, null_params)
                     } else {
                         // If the intercept is fixed to zero, then no minimization is
                         // required. The natural parameters are directly known in terms
-- 
2.43.0


From 01a85b49c90b6d979e2d2ee6f3a3ba1d674d6c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:45 +0000
Subject: [PATCH 22/36] fix: loo_exact() starts from a feasible guess

---
 src/fit.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index fb31970..839d2bb 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -410,12 +410,8 @@ where
     /// This is a much more expensive operation than the original regression because a new one is
     /// performed for each observation.
     pub fn loo_exact(&self) -> RegressionResult<Array2<F>, F> {
-        // Use the one-step approximation to get good starting points for each exclusion.
-        let loo_coef: Array2<F> = self.infl_coef()?;
-        // NOTE: These coefficients need to be in terms of external parameters
-        let loo_initial = &self.result - loo_coef;
-        let mut loo_result = loo_initial.clone();
         let n_obs = self.data.y.len();
+        let mut loo_result = Array2::<F>::zeros((n_obs, self.n_par));
         for i in 0..n_obs {
             let data_i: Dataset<F> = {
                 // Get the proper X data matrix as it existed before standardization and
@@ -448,10 +444,12 @@ where
             };
             let options = {
                 let mut options = self.options.clone();
-                // The one-step approximation should be a good starting point.
+                // The full result is a valid starting point with each observation left out. The
+                // first iteration from it is the one-step approximation, but that isn't safe to
+                // start from as it can be far from the optimum or out of the link's domain.
                 // Use the external result as it should be re-standardized to the new dataset
                 // internally before being passed to IRLS.
-                options.init_guess = Some(loo_initial.row(i).to_owned());
+                options.init_guess = Some(self.result.clone());
                 options
             };
             let fit_i = model_i.with_options(options).fit()?;
-- 
2.43.0


From e408399e4ee69f4c3cb9573a4b670685d1d03ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:45 +0000
Subject: [PATCH 23/36] fix: initial guesses compensate for linear offsets in
 one-sided link domains

---
 src/glm.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/glm.rs b/src/glm.rs
index 24a38a9..22028a8 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -236,6 +236,16 @@ where
         let y_bar: F = data.weighted_sum(&data.y) / data.sum_weights();
         let mut intercept_only = zeros;
         intercept_only[0] = M::Link::func(y_bar);
+        if let Some(off) = &data.linear_offset {
+            // Compensating for the largest or smallest offset puts all observations on one side of
+            // the average response, which is within the domain of a one-sided link.
+            for extremum in [F::max, F::min] {
+                let shift = off.iter().copied().reduce(extremum).unwrap_or_else(F::zero);
+                let mut shifted = intercept_only.clone();
+                shifted[0] -= shift;
+                candidates.push(shifted);
+            }
+        }
         candidates.push(intercept_only);
     } else {
         candidates.push(ridge_guess::<M, F>(data));
-- 
2.43.0


From b1c996df35ad4b47da61f1d409f00d867e69bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:32 +0000
Subject: [PATCH 24/36] fix: quantile residuals of degenerate fits don't panic

---
 src/fit.rs            | 7 ++++++-
 src/response/gamma.rs | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 839d2bb..18ce039 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1219,7 +1219,12 @@ where
                 // This variable should be standard-uniform distributed under data following the model
                 // assumption
                 let f = dist.cdf(y.to_f64().unwrap());
-                F::from_f64(std_norm.inverse_cdf(f)).unwrap()
+                // The numerical CDF can be NaN or exceed one by a rounding error for degenerate
+                // distributions.
+                if f.is_nan() {
+                    return F::nan();
+                }
+                F::from_f64(std_norm.inverse_cdf(f.clamp(0., 1.))).unwrap()
             })
     }
 }
diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index 263af0f..c78a3b0 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -58,7 +58,8 @@ where
         // Clamp phi to be no lower than epsilon ~2e-16. This will avoid overflows for
         // overspecified models. f64::MAX_POSITIVE would probably be overkill and might lead to
         // infinite values.
-        let alpha = 1. / phi.max(f64::EPSILON);
+        // The dispersion is infinite without residual degrees of freedom, but alpha > 0.
+        let alpha = 1. / phi.max(f64::EPSILON).min(f64::MAX);
         // mu = alpha / beta
         let beta = alpha / mu;
         let beta = beta.clamp(f64::MIN_POSITIVE, f64::MAX);
-- 
2.43.0


From b3d80ef49a9d0a9f8ed196b2a089139278381036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:38 +0000
Subject: [PATCH 25/36] fix: L1 fits from a guess of zero don't terminate
 before the first step

---
 src/regularization.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/regularization.rs b/src/regularization.rs
index f571238..c977d6e 100644
--- a/src/regularization.rs
+++ b/src/regularization.rs
@@ -139,6 +139,9 @@ pub(crate) struct Lasso<F: Float> {
     r_sq: F,
     /// L2-Norm of dual residuals |s|^2
     s_sq: F,
+    /// The number of steps prepared so far. The residuals of the first aren't meaningful, as they
+    /// vanish for an initial guess of zero wherever the optimum is.
+    n_prepared: usize,
 }
 
 impl<F: Float> Lasso<F> {
@@ -155,6 +158,7 @@ impl<F: Float> Lasso<F> {
             rho: F::one(),
             r_sq: F::infinity(), // or should it be NaN?
             s_sq: F::infinity(),
+            n_prepared: 0,
         }
     }
 
@@ -200,6 +204,7 @@ impl<F: Float> IrlsReg<F> for Lasso<F> {
 
         self.r_sq = r.mapv(|r| r * r).sum();
         self.s_sq = s.mapv(|s| s * s).sum();
+        self.n_prepared += 1;
     }
 
     fn irls_like(&self, regressors: &Array1<F>) -> F {
@@ -235,7 +240,7 @@ impl<F: Float> IrlsReg<F> for Lasso<F> {
         let n_sq = F::from((n as f64).sqrt()).unwrap();
         let r_pass = self.r_sq < n_sq * tol;
         let s_pass = self.s_sq < n_sq * tol;
-        r_pass && s_pass
+        self.n_prepared > 1 && r_pass && s_pass
     }
 }
 
@@ -255,6 +260,9 @@ pub(crate) struct ElasticNet<F: Float> {
     r_sq: F,
     /// L2-Norm of dual residuals |s|^2
     s_sq: F,
+    /// The number of steps prepared so far. The residuals of the first aren't meaningful, as they
+    /// vanish for an initial guess of zero wherever the optimum is.
+    n_prepared: usize,
 }
 
 impl<F: Float> ElasticNet<F> {
@@ -272,6 +280,7 @@ impl<F: Float> ElasticNet<F> {
             rho: F::one(),
             r_sq: F::infinity(), // or should it be NaN?
             s_sq: F::infinity(),
+            n_prepared: 0,
         }
     }
 
@@ -318,6 +327,7 @@ impl<F: Float> IrlsReg<F> for ElasticNet<F> {
 
         self.r_sq = r.mapv(|r| r * r).sum();
         self.s_sq = s.mapv(|s| s * s).sum();
+        self.n_prepared += 1;
     }
 
     fn irls_like(&self, regressors: &Array1<F>) -> F {
@@ -357,7 +367,7 @@ impl<F: Float> IrlsReg<F> for ElasticNet<F> {
         let n_sq = F::from((n as f64).sqrt()).unwrap();
         let r_pass = self.r_sq < n_sq * tol;
         let s_pass = self.s_sq < n_sq * tol;
-        r_pass && s_pass
+        self.n_prepared > 1 && r_pass && s_pass
     }
 }
 
-- 
2.43.0


From 6d5becd73e090f45f4a4511ba95e3f698ebc0ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:33 +0000
Subject: [PATCH 26/36] fix: L1 iterations don't leave the domain of the link
 function

---
 src/irls.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/irls.rs b/src/irls.rs
index 87fb141..517b555 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -150,6 +150,23 @@ where
         (neg_hessian, rhs)
     }
 
+    /// Shorten a step which leaves the domain of the link function, or overflows, until the
+    /// likelihood is defined. Once outside the iteration might never get back.
+    fn keep_feasible(&self, mut next_guess: Array1<F>, mut next_like_data: F) -> (Array1<F>, F) {
+        if !self.last_like_data.is_finite() {
+            return (next_guess, next_like_data);
+        }
+        // The number of halvings is limited in case the current guess is at the edge of the domain.
+        for _ in 0..16 {
+            if next_like_data.is_finite() {
+                break;
+            }
+            next_guess = (&next_guess + &self.guess) * F::half();
+            next_like_data = data_like::<M, F>(self.data, &next_guess);
+        }
+        (next_guess, next_like_data)
+    }
+
     /// Get the most recent step as a new object. This is most useful as a fallback when there
     /// are no iterations because the iteration started at the maximum, and we need to recover the
     /// default with proper regularization. It could also be used within step_with() itself, after
@@ -215,6 +232,7 @@ where
         // L1/ElasticNet), precision tolerance checks don't matter and we should continue on with
         // the iteration.
         if !self.reg.terminate_ok(self.options.tol) {
+            let (next_guess, next_like_data) = self.keep_feasible(next_guess, next_like_data);
             return Some(self.step_with(next_guess, next_like_data));
         }
 
-- 
2.43.0


From 0c3ff1cb214e0f200bd50604aff909e0b88f1dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:13 +0000
Subject: [PATCH 27/36] fix: L1 fits set inactive coefficients to exactly zero

---
 src/glm.rs            | 13 +++++++++++++
 src/regularization.rs | 26 ++++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/glm.rs b/src/glm.rs
index 22028a8..1bbe01a 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -194,6 +194,19 @@ pub trait Glm: Sized {
             err => err,
         })?
         .unwrap_or_else(|| irls.make_last_step());
+        let optimum = match irls.reg.sparse_guess(&optimum.guess) {
+            Some(guess) => {
+                let like = data_like::<Self, F>(&model.data, &guess) + irls.reg.likelihood(&guess);
+                // It should be an improvement, which can be below the precision of the likelihood.
+                let change: F = (&guess - &optimum.guess).mapv(|d| d * d).sum();
+                if like >= optimum.like || (like.is_finite() && change <= irls.options.tol) {
+                    IrlsStep { guess, like }
+                } else {
+                    optimum
+                }
+            }
+            None => optimum,
+        };
         // If the likelihood is nowhere defined along the iteration then there is no fit. The
         // predictions can be infinite at the edge of the domain even if the likelihood is defined.
         let mu = Self::mean(&model.data.linear_predictor_std(&optimum.guess));
diff --git a/src/regularization.rs b/src/regularization.rs
index c977d6e..d3ea9af 100644
--- a/src/regularization.rs
+++ b/src/regularization.rs
@@ -64,6 +64,12 @@ where
     fn terminate_ok(&self, _tol: F) -> bool {
         true
     }
+
+    /// The guess with the coefficients that the regularization removes set to exactly zero.
+    /// Returns None if there is no such effect.
+    fn sparse_guess(&self, _guess: &Array1<F>) -> Option<Array1<F>> {
+        None
+    }
 }
 
 /// Represents a lack of regularization.
@@ -242,6 +248,10 @@ impl<F: Float> IrlsReg<F> for Lasso<F> {
         let s_pass = self.s_sq < n_sq * tol;
         self.n_prepared > 1 && r_pass && s_pass
     }
+
+    fn sparse_guess(&self, guess: &Array1<F>) -> Option<Array1<F>> {
+        Some(zero_inactive(guess, &self.dual, &self.l1_vec))
+    }
 }
 
 /// Penalizes the likelihood with both an L1-norm and L2-norm.
@@ -369,6 +379,22 @@ impl<F: Float> IrlsReg<F> for ElasticNet<F> {
         let s_pass = self.s_sq < n_sq * tol;
         self.n_prepared > 1 && r_pass && s_pass
     }
+
+    fn sparse_guess(&self, guess: &Array1<F>) -> Option<Array1<F>> {
+        Some(zero_inactive(guess, &self.dual, &self.l1_vec))
+    }
+}
+
+/// Set the L1-penalized coefficients to zero where the dual solution is zero. The two agree only
+/// within the tolerance.
+fn zero_inactive<F: Float>(guess: &Array1<F>, dual: &Array1<F>, l1: &Array1<F>) -> Array1<F> {
+    let mut sparse = guess.clone();
+    for ((b, d), l) in sparse.iter_mut().zip(dual).zip(l1) {
+        if d.is_zero() && *l > F::zero() {
+            *b = F::zero();
+        }
+    }
+    sparse
 }
 
 /// The soft thresholding operator
-- 
2.43.0


From 1d0c0c8f6dc025fc4ad53bfc30d1a02f14844769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:42 +0000
Subject: [PATCH 28/36] fix: observations that occur zero times don't affect
 the fit outside of the link's domain

The working variance and errors of such observations can be infinite or NaN, which the
zero frequency didn't remove from the update equations, Fisher information and score.
---
 src/data.rs | 13 +++++++++++++
 src/fit.rs  |  6 ++++--
 src/glm.rs  |  2 +-
 src/irls.rs |  3 +++
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 2666147..94194b8 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -103,6 +103,19 @@ where
         rhs
     }
 
+    /// Set to zero the values of observations that occur zero times, which may be undefined. This
+    /// is equivalent under any sum weighted by the frequencies.
+    pub(crate) fn zero_unobserved(&self, mut rhs: Array1<F>) -> Array1<F> {
+        if let Some(f) = &self.freqs {
+            rhs.zip_mut_with(f, |r, f| {
+                if f.is_zero() {
+                    *r = F::zero()
+                }
+            });
+        }
+        rhs
+    }
+
     /// multiply the input vector element-wise by the weights, if they exist
     pub(crate) fn apply_total_weights(&self, rhs: Array1<F>) -> Array1<F> {
         self.apply_freq_weights(self.apply_var_weights(rhs))
diff --git a/src/fit.rs b/src/fit.rs
index 18ce039..20972b8 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -325,7 +325,8 @@ where
     /// Compute the data-only (unregularized) Fisher information in the internal standardized basis.
     fn fisher_data_std(&self, params: &Array1<F>) -> Array2<F> {
         let lin_pred: Array1<F> = self.data.linear_predictor_std(params);
-        let adj_var: Array1<F> = M::adjusted_variance_diag(&lin_pred);
+        let adj_var: Array1<F> =
+            self.data.zero_unobserved(M::adjusted_variance_diag(&lin_pred));
         (self.data.x_conj() * &adj_var).dot(&self.data.x)
     }
 
@@ -880,7 +881,8 @@ where
         let lin_pred: Array1<F> = self.data.linear_predictor_std(&params_std);
         let mu: Array1<F> = M::mean(&lin_pred);
         let resid_response = &self.data.y - mu;
-        let resid_working = M::Link::adjust_errors(resid_response, &lin_pred);
+        let resid_working =
+            self.data.zero_unobserved(M::Link::adjust_errors(resid_response, &lin_pred));
         let score_int = self.data.x_conj().dot(&resid_working);
         let score_int_reg = self.reg.as_ref().gradient(score_int, &params_std);
         self.data.inverse_transform_score(score_int_reg)
diff --git a/src/glm.rs b/src/glm.rs
index 1bbe01a..43edb34 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -233,7 +233,7 @@ where
     // An infinite prediction can't be iterated from, even if its likelihood is defined.
     let like = |b: &Array1<F>| {
         let mu = M::mean(&data.linear_predictor_std(b));
-        if mu.iter().all(|m| m.is_finite()) {
+        if data.freq_sum(&mu).is_finite() {
             data_like::<M, F>(data, b) + reg.likelihood(b)
         } else {
             F::neg_infinity()
diff --git a/src/irls.rs b/src/irls.rs
index 517b555..a89a10a 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -129,6 +129,9 @@ where
         // the link function. With the canonical link function, this is a no-op.
         let (errors, var_diag) =
             M::Link::adjust_errors_variance(errors, var_diag, &linear_predictor);
+        // Observations that occur zero times may be outside of the domain of the link function.
+        let errors = self.data.zero_unobserved(errors);
+        let var_diag = self.data.zero_unobserved(var_diag);
 
         // condition after the adjustment in case the derivatives are zero. Or
         // should the Hessian itself be conditioned?
-- 
2.43.0


From e5effabe8296a783c1640a66147aff1278f080ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:51 +0000
Subject: [PATCH 29/36] fix: zeroing the inactive coefficients of an L1 fit
 doesn't lose likelihood

The distance to the sparse parameters says little about the loss of likelihood for covariates
on a large scale.
---
 src/glm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glm.rs b/src/glm.rs
index 43edb34..403005b 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -199,7 +199,10 @@ pub trait Glm: Sized {
                 let like = data_like::<Self, F>(&model.data, &guess) + irls.reg.likelihood(&guess);
                 // It should be an improvement, which can be below the precision of the likelihood.
                 let change: F = (&guess - &optimum.guess).mapv(|d| d * d).sum();
-                if like >= optimum.like || (like.is_finite() && change <= irls.options.tol) {
+                let loss = optimum.like - like;
+                let max_loss = num_traits::Float::sqrt(irls.options.tol)
+                    * (F::one() + num_traits::Float::abs(optimum.like));
+                if loss <= F::zero() || (loss <= max_loss && change <= irls.options.tol) {
                     IrlsStep { guess, like }
                 } else {
                     optimum
-- 
2.43.0


From 1a0d29538bccda25b18e4c28dae30045638a74b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:36 +0000
Subject: [PATCH 30/36] fix: the step search terminates with a tolerance of
 zero

---
 src/irls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/irls.rs b/src/irls.rs
index a89a10a..fa83d0d 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -382,7 +382,11 @@ pub(crate) fn get_reg<F: Float>(
 /// found to be a strict improvement.
 /// If none are found, it will check a single negative step.
 fn step_scale<F: Float>(f: &dyn Fn(F) -> F, tol: F) -> F {
-    let tol = num_traits::Float::abs(tol);
+    // Subnormal numbers can be fixed points of the scaling, so zero would never be reached.
+    let tol = num_traits::Float::max(
+        num_traits::Float::abs(tol),
+        num_traits::Float::min_positive_value(),
+    );
     // TODO: Add list of values to explicitly try (for instance with zeroed parameters)
 
     let zero: F = F::zero();
-- 
2.43.0


From f66bdc4744f38ec76ab3a723b65ed275fe151479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:11 +0000
Subject: [PATCH 31/36] fix: gamma quantile residuals don't underflow for an
 infinite dispersion

---
 src/response/gamma.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index c78a3b0..7f2aa69 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -58,8 +58,9 @@ where
         // Clamp phi to be no lower than epsilon ~2e-16. This will avoid overflows for
         // overspecified models. f64::MAX_POSITIVE would probably be overkill and might lead to
         // infinite values.
-        // The dispersion is infinite without residual degrees of freedom, but alpha > 0.
-        let alpha = 1. / phi.max(f64::EPSILON).min(f64::MAX);
+        // The dispersion is infinite without residual degrees of freedom or for an observation with
+        // zero variance weight, but alpha > 0 must be large enough that beta * y doesn't underflow.
+        let alpha = 1. / phi.max(f64::EPSILON).min(f64::EPSILON.recip());
         // mu = alpha / beta
         let beta = alpha / mu;
         let beta = beta.clamp(f64::MIN_POSITIVE, f64::MAX);
-- 
2.43.0


From 71152cfe82b6c283e53275a621dd43252602bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:14 +0000
Subject: [PATCH 32/36] fix: exponential quantile residuals with an overflowed
 mean

---
 src/response/exponential.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/response/exponential.rs b/src/response/exponential.rs
index d7bc351..7172f86 100644
--- a/src/response/exponential.rs
+++ b/src/response/exponential.rs
@@ -61,8 +61,9 @@ where
         // dynamic dispatch or an enum between Exp and Dirac that would have to forward every
         // Distribution<f64> and ContinuousCDF<f64> calls, the simplest way to ensure μ > 0 is
         // to clamp at the lowest positive value (~2e-308).
+        // Similarly an overflowed mean is clamped at the highest finite value.
         // Exp::new(rate) where rate = 1/mu, since statrs parameterizes by rate (mean = 1/rate).
-        Exp::new(mu.max(f64::MIN_POSITIVE).recip()).unwrap()
+        Exp::new(mu.max(f64::MIN_POSITIVE).min(f64::MAX).recip()).unwrap()
     }
 }
 
-- 
2.43.0


From c99db18e059855059f992920e5cf63ecd882c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:22 +0000
Subject: [PATCH 33/36] fix: the average response of the null model stays
 within the responses

Rounding in the weighted average of responses at the edge of their range (e.g. all counts of a
binomial response equal to N) could leave the range, where the link function and the null likelihood
are NaN.
---
 src/fit.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fit.rs b/src/fit.rs
index 20972b8..f7223a3 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -573,6 +573,15 @@ where
                     // to the average.
                     // The average y
                     let y_bar: F = self.data.weighted_sum(&self.data.y) / self.data.sum_weights();
+                    // Rounding must not carry the average beyond the responses, as the link function
+                    // may not be defined there.
+                    let y_bar: F = if self.data.y.iter().all(|&y| y_bar > y) {
+                        self.data.y.fold(F::neg_infinity(), |m, &y| num_traits::Float::max(m, y))
+                    } else if self.data.y.iter().all(|&y| y_bar < y) {
+                        self.data.y.fold(F::infinity(), |m, &y| num_traits::Float::min(m, y))
+                    } else {
+                        y_bar
+                    };
                     // This approach assumes that the likelihood is in the natural
                     // exponential form as calculated by Glm::log_like_natural(). If that
                     // function is overridden and the values differ significantly, this
-- 
2.43.0


From d647cd4f1d212306c60d7b314fc56eb25a859cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:41 +0000
Subject: [PATCH 34/36] fix: information matrices are inverted in the internal
 basis

The inverse of the Fisher information in the external basis lost its accuracy when covariates were on
very different scales, so that e.g. standard errors and score tests depended on the units of the
covariates although the data is standardized.
---
 src/fit.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index f7223a3..3fa3acf 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -310,14 +310,15 @@ where
     /// Cached on first access.
     fn fisher_inv(&self) -> RegressionResult<&Array2<F>, F> {
         self.fisher_inv.get_or_try_init(|| {
-            let fisher_reg = self.fisher(&self.result);
-            // NOTE: invh/invh_into() are bugged and incorrect, as they are sensitive to the layout.
-            // Even with X in column-major order, the fisher matrix is in the space of the
-            // covariates, and seems to naturally emerge as row-major. The bug could be avoided
-            // with:
-            // let fish_inv = fisher_reg.t().to_owned().invh_into()?;
-            // but this also allocates again so let's not worry about this yet.
-            let fish_inv = fisher_reg.inv_into()?;
+            // The inversion is done in the internal basis, as the external one isn't accurate when
+            // the covariates have very different scales.
+            let mut fish_inv = self.fisher_std_inv()?.to_owned();
+            for axis in [Axis(0), Axis(1)] {
+                for mut lane in fish_inv.lanes_mut(axis) {
+                    let external = self.data.inverse_transform_beta(lane.to_owned());
+                    lane.assign(&external);
+                }
+            }
             Ok(fish_inv)
         })
     }
@@ -883,9 +884,15 @@ where
     /// regularized log-likelihood) at the parameter values given. Should be zero at the MLE.
     /// The input and output are in the external (unstandardized) parameter space.
     pub fn score(&self, params: Array1<F>) -> Array1<F> {
-        // Compute in the internal (standardized) basis so the regularization gradient is applied
-        // to the correct parameters, then transform the result back to external coordinates via
         // score_ext = J^T score_int where J = d(beta_std)/d(beta_ext).
+        let score_int = self.score_std(params);
+        self.data.inverse_transform_score(score_int)
+    }
+
+    /// The score function in the internal (standardized) basis, for the given external parameters.
+    fn score_std(&self, params: Array1<F>) -> Array1<F> {
+        // Compute in the internal (standardized) basis so the regularization gradient is applied
+        // to the correct parameters.
         let params_std = self.data.transform_beta(params);
         let lin_pred: Array1<F> = self.data.linear_predictor_std(&params_std);
         let mu: Array1<F> = M::mean(&lin_pred);
@@ -893,8 +900,7 @@ where
         let resid_working =
             self.data.zero_unobserved(M::Link::adjust_errors(resid_response, &lin_pred));
         let score_int = self.data.x_conj().dot(&resid_working);
-        let score_int_reg = self.reg.as_ref().gradient(score_int, &params_std);
-        self.data.inverse_transform_score(score_int_reg)
+        self.reg.as_ref().gradient(score_int, &params_std)
     }
 
     /// Returns the score test statistic:
@@ -916,8 +922,10 @@ where
     /// parameters, not necessarily a null model. The degrees of freedom cannot
     /// be generally inferred.
     pub fn score_test_against(&self, alternative: Array1<F>) -> RegressionResult<F, F> {
-        let fisher_alt = self.fisher(&alternative);
-        let score_alt = self.score(alternative);
+        // The statistic doesn't depend on the basis, and the inversion of the Fisher information is
+        // more accurate in the internal one.
+        let fisher_alt = self.fisher_std(&self.data.transform_beta(alternative.clone()));
+        let score_alt = self.score_std(alternative);
         // The is not the same as the cached covariance matrix since it is
         // evaluated at the null parameters.
         // NOTE: invh/invh_into() are bugged and incorrect!
-- 
2.43.0


From 1b0b616347bb97d2788b48468ea80ffde6ad3b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:42 +0000
Subject: [PATCH 35/36] fix: Condition the IRLS weights relative to the scale
 of the response

The constant added to the variances dominated them for responses with a
variance below machine epsilon, e.g. inverse-Gaussian or f32 gamma responses
around 1e-6, which then failed to converge or reported a fit far from the
optimum.
---
 src/irls.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/irls.rs b/src/irls.rs
index fa83d0d..0800afa 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -4,7 +4,7 @@ use crate::{
     error::{RegressionError, RegressionResult},
     fit::options::FitOptions,
     glm::Glm,
-    link::Transform,
+    link::{Link, Transform},
     model::Model,
     num::Float,
     regularization::*,
@@ -31,6 +31,8 @@ where
     pub(crate) options: FitOptions<F>,
     /// The regularizer object, which may be stateful
     pub(crate) reg: Box<dyn IrlsReg<F>>,
+    /// A negligible variance, which conditions the weights of the IRLS matrix.
+    var_eps: F,
     /// The number of iterations taken so far
     pub n_iter: usize,
     /// The data likelihood for the previous iteration, unregularized and unaugmented.
@@ -64,6 +66,7 @@ where
             guess: initial,
             options,
             reg,
+            var_eps: negligible_variance::<M, F>(data),
             n_iter: 0,
             last_like_data: initial_like_data,
             done: false,
@@ -136,7 +139,7 @@ where
         // condition after the adjustment in case the derivatives are zero. Or
         // should the Hessian itself be conditioned?
         // TODO: allow the variance conditioning to be a configurable parameter.
-        let var_diag: Array1<F> = var_diag.mapv_into(|v| v + F::epsilon());
+        let var_diag: Array1<F> = var_diag.mapv_into(|v| v + self.var_eps);
 
         // X weighted by the model variance for each observation
         // This is really the negative Hessian of the likelihood.
@@ -298,6 +301,22 @@ where
     }
 }
 
+/// A variance (adjusted for the link function) that is negligible for these responses. Variances
+/// have the units of the response, so they may all be far below machine epsilon. They're compared
+/// to the variance at the average response, if that is small.
+fn negligible_variance<M: Glm, F: Float>(data: &Dataset<F>) -> F {
+    let y_bar = data.weighted_sum(&data.y) / data.sum_weights();
+    let var = M::Link::adjust_variance(
+        Array1::from_elem(1, M::variance(y_bar)),
+        &Array1::from_elem(1, M::Link::func(y_bar)),
+    )[0];
+    if var > F::zero() && var < F::one() {
+        F::epsilon() * var
+    } else {
+        F::epsilon()
+    }
+}
+
 /// The log-likelihood of the data, where parameters that give some observation a linear predictor
 /// outside of the domain of the link (with an undefined likelihood) are taken to be impossible.
 /// NaN likelihoods aren't ordered, so they'd block improvements and sort as optimal.
-- 
2.43.0


From fee1640a9d66d4bb4a8ddb2f9169f486ea82d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:03 +0000
Subject: [PATCH 36/36] fix: Search along long steps relative to their length

The step search ended at once for parameters above 1/tol, as with
inverse-Gaussian responses around 1e-8, so an overshooting first step was
reported as convergence to the initial guess.
---
 src/irls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/irls.rs b/src/irls.rs
index 0800afa..5bf30fb 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -287,6 +287,10 @@ where
             // M::log_like(self.data, &b) + self.reg.irls_like(&b) // augmented
         };
         let beta_tol_factor = num_traits::Float::sqrt(self.guess.mapv(|b| F::one() + b * b).sum());
+        // A long step can still be shortened to a fraction of it well below this tolerance.
+        let step_len2 = (&next_guess - &self.guess).mapv(|d| d * d).sum();
+        let beta_tol_factor = beta_tol_factor
+            / num_traits::Float::max(F::one(), num_traits::Float::sqrt(step_len2));
         let step_mult: F = step_scale(&f_step, beta_tol_factor * self.options.tol);
         if step_mult.is_zero() {
             // can't find a strictly better minimum if the step multiplier returns zero
-- 
2.43.0

