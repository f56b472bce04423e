From 489f13013efd09338361498439bcc7408714728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 1/6] fix: evaluating the likelihood must not modify the model
 frame

lme4 updates theta, Lambdat and the offset in place. They were shared with
the model frame the caller holds, and so with every other likelihood
function made from it: later functions started from the wrong offset, and
a function evaluated while another was being evaluated changed its value.
---
 R/loglikelihood.R | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index 8c6c721..120b58f 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -11,8 +11,18 @@ find_lfun_glmm <- function(modfr, method, control = NULL,
 }
 
 find_devfun_laplace_1 <- function(modfr, lme4_control) {
-  devfun_lme4 <- lme4::mkGlmerDevfun(fr = modfr$fr, X = modfr$X,
-                                     reTrms = modfr$reTrms, family = modfr$family,
+  # lme4 overwrites theta, Lambdat and the offset in place each time the
+  # deviance is evaluated, so give it copies, rather than those in modfr
+  reTrms <- modfr$reTrms
+  reTrms$theta <- reTrms$theta + 0
+  reTrms$Lambdat@x <- reTrms$Lambdat@x + 0
+  fr <- modfr$fr
+  offset_cols <- c(which(names(fr) == "(offset)"), attr(attr(fr, "terms"), "offset"))
+  for(j in offset_cols) {
+    fr[[j]] <- fr[[j]] + 0
+  }
+  devfun_lme4 <- lme4::mkGlmerDevfun(fr = fr, X = modfr$X,
+                                     reTrms = reTrms, family = modfr$family,
                                      control = lme4_control)
   lme4::updateGlmerDevfun(devfun_lme4, modfr$reTrms, nAGQ = 1)
 }
-- 
2.43.0


From 4bda026720da529508ecc7bea92975d9a4ba89a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 2/6] fix: weights and offset no longer overwrite the caller's
 variables

lme4::glFormula assigns its weights and offset arguments in the environment
of the formula, usually the global environment: fitting with weights replaced
the user's variable called weights.
---
 R/model_frames.R | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/R/model_frames.R b/R/model_frames.R
index 6563440..fa216ae 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -11,6 +11,11 @@ parse_formula <- function(formula, data, family, weights, off,
   if(has_re(formula)) {
     if (family$family == "gaussian")
       stop("glmmsr can't yet handle family = gaussian", call. = FALSE)
+    if(!is.null(weights) || !is.null(off)) {
+      # glFormula assigns weights and offset in the environment of the formula,
+      # which must not be that of the caller
+      environment(formula) <- new.env(parent = environment(formula))
+    }
     if(is.null(off) && is.null(weights)) {
       modfr <- lme4::glFormula(formula, data = data_vars, family = family,
                                na.action = na.fail, control = lme4_control)
-- 
2.43.0


From 17b58755db7f567e191df3ca4040e764e557b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 3/6] fix: running out of memory no longer leaves a stale
 likelihood behind

setTheta and setBeta recorded the new parameters before computing what
depends on them, so when that computation ran out of memory the next
evaluation at the same parameters silently used the old values.
---
 src/GLMMBelief.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/GLMMBelief.cpp b/src/GLMMBelief.cpp
index a790f0e..e3b2c4b 100644
--- a/src/GLMMBelief.cpp
+++ b/src/GLMMBelief.cpp
@@ -55,16 +55,21 @@ Eigen::MatrixXd GLMMBelief::evaluateSecondDerivative(const Eigen::VectorXd& x,
 void GLMMBelief::setTheta(const Eigen::VectorXd& theta)
 {
   if(theta.size() != theta_.size() || theta != theta_) {
-    theta_ = theta;
-    setLambdatThetaZt(theta);
+    // if this runs out of memory, leave theta_ as it was: it says what
+    // LambdatThetaZt_ was computed from
+    Eigen::VectorXd newTheta(theta);
+    setLambdatThetaZt(newTheta);
+    theta_.swap(newTheta);
   }
 }
 
 void GLMMBelief::setBeta(const Eigen::VectorXd& beta)
 {
   if(beta.size() != beta_.size() || beta != beta_) {
-    beta_ = beta;
-    XBeta_ = X_ * beta_;
+    Eigen::VectorXd newBeta(beta);
+    Eigen::MatrixXd newXBeta(X_ * newBeta);
+    XBeta_.swap(newXBeta);
+    beta_.swap(newBeta);
   }
 }
 
@@ -85,7 +90,8 @@ void GLMMBelief::setLambdatThetaZt(const Eigen::VectorXd& theta)
       i.valueRef() = theta(Lind_(index));
       index++;
     }
-  LambdatThetaZt_ = LambdatTheta * Zt_;
+  Eigen::MatrixXd newLambdatThetaZt(LambdatTheta * Zt_);
+  LambdatThetaZt_.swap(newLambdatThetaZt);
 }
 
 Eigen::ArrayXd GLMMBelief::computeLinearPredictor(const Eigen::VectorXd& x) const
-- 
2.43.0


From 3884b2726cf6c57ddd0848cf24c21fae250f16a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 4/6] fix: running out of memory while passing a message no
 longer frees memory twice

---
 src/MixedContinuousBelief.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/MixedContinuousBelief.cpp b/src/MixedContinuousBelief.cpp
index 211b700..a0f9460 100644
--- a/src/MixedContinuousBelief.cpp
+++ b/src/MixedContinuousBelief.cpp
@@ -111,21 +111,23 @@ MixedContinuousBelief MixedContinuousBelief::margin
  bool normalApproxOnly,
  const Parameters& parameters)
 {
-  MixedContinuousBelief marginalBelief(items);
   if(normalApproxOnly) {
+    MixedContinuousBelief marginalBelief(items);
     auto normalMargin = normalApprox_.margin(items);
     marginalBelief.setNormalApprox(normalMargin);
+    return marginalBelief;
   }
-  else {
-    marginalBelief = *this;
-    auto itemsIntegrate = findItemsDifference(items_, items);
-    std::vector<int> integratedItems;
-    auto remainingItems = items_;
-    for(auto i = itemsIntegrate.begin(); i != itemsIntegrate.end(); ++i) {
-      marginalBelief = marginalBelief.integrate(*i, parameters);
-      integratedItems.push_back(*i);
-      remainingItems = findItemsDifference(items_, integratedItems);
-    }
+
+  // copy, rather than assign to a belief on the items of the margin: an
+  // Eigen object which cannot be resized is left pointing to freed memory
+  MixedContinuousBelief marginalBelief(*this);
+  auto itemsIntegrate = findItemsDifference(items_, items);
+  std::vector<int> integratedItems;
+  auto remainingItems = items_;
+  for(auto i = itemsIntegrate.begin(); i != itemsIntegrate.end(); ++i) {
+    marginalBelief = marginalBelief.integrate(*i, parameters);
+    integratedItems.push_back(*i);
+    remainingItems = findItemsDifference(items_, integratedItems);
   }
 
   return marginalBelief;
-- 
2.43.0


From 0d6bbfd978df56cd596e6d699121af5393735243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 5/6] fix: the likelihood no longer depends on what was
 evaluated before

---
 R/loglikelihood.R | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index 120b58f..4defd40 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -24,7 +24,18 @@ find_devfun_laplace_1 <- function(modfr, lme4_control) {
   devfun_lme4 <- lme4::mkGlmerDevfun(fr = fr, X = modfr$X,
                                      reTrms = reTrms, family = modfr$family,
                                      control = lme4_control)
-  lme4::updateGlmerDevfun(devfun_lme4, modfr$reTrms, nAGQ = 1)
+  devfun <- lme4::updateGlmerDevfun(devfun_lme4, modfr$reTrms, nAGQ = 1)
+
+  # PIRLS falls back on the previous random effects if its first step fails:
+  # make sure those are always the same, whatever has been evaluated before
+  rho <- environment(devfun)
+  delu <- rho$pp$delu + 0
+  pwrssUpdate <- rho$pwrssUpdate
+  rho$pwrssUpdate <- function(pp, ...) {
+    pp$setDelu(delu)
+    pwrssUpdate(pp, ...)
+  }
+  devfun
 }
 
 find_lfun_glmm_internal <- function(modfr, method, control, devfun_laplace_1)
-- 
2.43.0


From df5e66e288a8c7028a1889958abff94598444835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 6/6] fix: look up the canonical link in stats, not in the
 user's workspace

---
 R/utility.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/utility.R b/R/utility.R
index f9c1748..1395cd8 100644
--- a/R/utility.R
+++ b/R/utility.R
@@ -94,6 +94,7 @@ check_modfr_SR <- function(modfr) {
 }
 
 is_canonical <- function(family) {
-  canonical_link <- eval(parse(text = paste(family$family, "()", sep = "")))$link
+  # the family of stats, not what the user may have under that name
+  canonical_link <- getExportedValue("stats", family$family)()$link
   family$link == canonical_link
 }
-- 
2.43.0

