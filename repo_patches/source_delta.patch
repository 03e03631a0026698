From d52897465fd3b596460039e1e2c6dd87843d28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 01/30] fix: reject NaN strikes in payoff constructors

---
 src/payoff/double_strikes/base_payoff_double_strikes.cpp | 4 ++--
 src/payoff/single_strike/base_payoff_single_strike.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/payoff/double_strikes/base_payoff_double_strikes.cpp b/src/payoff/double_strikes/base_payoff_double_strikes.cpp
index 45f4f2a..0ae0b9f 100644
--- a/src/payoff/double_strikes/base_payoff_double_strikes.cpp
+++ b/src/payoff/double_strikes/base_payoff_double_strikes.cpp
@@ -6,8 +6,8 @@ namespace OptionPricer {
 
     PayoffDoubleStrikes::PayoffDoubleStrikes(const PayoffType& type, const double& K_L, const double& K_U)
         : Payoff(type), K_L_(K_L), K_U_(K_U) {
-        if (K_L_ < 0) throw std::invalid_argument("Lower Strike price (K_L) must be positive.");
-        if (K_U_ < 0) throw std::invalid_argument("Upper Strike price (K_U) must be positive.");
+        if (!(K_L_ >= 0)) throw std::invalid_argument("Lower Strike price (K_L) must be positive.");
+        if (!(K_U_ >= 0)) throw std::invalid_argument("Upper Strike price (K_U) must be positive.");
     }
 
     PayoffDoubleStrikes::~PayoffDoubleStrikes() = default;
diff --git a/src/payoff/single_strike/base_payoff_single_strike.cpp b/src/payoff/single_strike/base_payoff_single_strike.cpp
index 0132f37..9433855 100644
--- a/src/payoff/single_strike/base_payoff_single_strike.cpp
+++ b/src/payoff/single_strike/base_payoff_single_strike.cpp
@@ -5,7 +5,7 @@
 namespace OptionPricer {
 
     PayoffSingleStrike::PayoffSingleStrike(const PayoffType& type, const double& K) : Payoff(type), K_(K) {
-        if (K_ < 0) throw std::invalid_argument("Strike price (K) must be positive.");
+        if (!(K_ >= 0)) throw std::invalid_argument("Strike price (K) must be positive.");
     }
 
     PayoffSingleStrike::~PayoffSingleStrike() = default;
-- 
2.43.0


From 9023494e79e9c09bb8a67310d3ee11c679104cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 02/30] fix: reject a NaN maturity when constructing an option

---
 src/option/base_option.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/option/base_option.cpp b/src/option/base_option.cpp
index 8be0461..6c9d7af 100644
--- a/src/option/base_option.cpp
+++ b/src/option/base_option.cpp
@@ -22,7 +22,7 @@ namespace OptionPricer {
                    const double& T,
                    std::shared_ptr<IMarketData> marketData)
     : MarketDataObserver(ticker), T_(T), marketData_(std::move(marketData)) {
-        if (T < 0) throw std::invalid_argument("Time to expiration (T) must be positive.");
+        if (!(T >= 0)) throw std::invalid_argument("Time to expiration (T) must be positive.");
         // Try to retrieve StockData if not found it throws an exception
         auto stockData = marketData_->getStockData(id_);
         payoff_ = std::move(payoff); // Safely move the payoff
-- 
2.43.0


From a8e569fa6b8c225a757ec74f88b186a9ca71df02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 03/30] fix: leave stock data unchanged when an update is
 rejected

---
 src/market_data/stock_data.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/market_data/stock_data.cpp b/src/market_data/stock_data.cpp
index a7775de..78e0f18 100644
--- a/src/market_data/stock_data.cpp
+++ b/src/market_data/stock_data.cpp
@@ -38,18 +38,15 @@ namespace OptionPricer {
     }
 
     void StockData::setPrice(const double& S) {
-        S_ = S;
-        validate();
+        *this = StockData(S, sigma_, c_); // Validates before any member changes
     }
 
     void StockData::setSigma(const double& sigma) {
-        sigma_ = sigma;
-        validate();
+        *this = StockData(S_, sigma, c_);
     }
 
     void StockData::setCoupon(const std::optional<double>& c) {
-        c_ = c;
-        validate();
+        *this = StockData(S_, sigma_, c);
     }
 
     void StockData::validate() const {
-- 
2.43.0


From 63f8883a081162d9b16e8180854e4354cdc4341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 04/30] fix: reject NaN price, volatility and coupon

---
 src/market_data/stock_data.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/market_data/stock_data.cpp b/src/market_data/stock_data.cpp
index 78e0f18..2cf72e1 100644
--- a/src/market_data/stock_data.cpp
+++ b/src/market_data/stock_data.cpp
@@ -50,14 +50,14 @@ namespace OptionPricer {
     }
 
     void StockData::validate() const {
-        if (S_ <= 0) {
+        if (!(S_ > 0)) {
             throw std::invalid_argument("Price must be positive.");
         }
-        if (sigma_ < 0) {
+        if (!(sigma_ >= 0)) {
             throw std::invalid_argument("Sigma cannot be negative.");
         }
         // Check if the optional dividend was specified before accessing
-        if (c_.has_value() && (c_.value() < 0 || c_.value() > 1)) {
+        if (c_.has_value() && !(c_.value() >= 0 && c_.value() <= 1)) {
             throw std::invalid_argument("Coupon rate must be between 0 and 1.");
         }
     }
-- 
2.43.0


From 9f9dcbc00d9ccefb2ad735ef8010c885b9841eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 05/30] fix: use the rate 1/nu for the variance gamma
 subordinator

---
 src/model/variance_gamma_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index a386bd3..1feaaac 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -37,7 +37,7 @@ namespace OptionPricer {
         const double dt = T / static_cast<double>(steps);
 
         StandardNormalDistribution snDist;
-        GammaDistribution gammaDist(dt / nu_, nu_);
+        GammaDistribution gammaDist(dt / nu_, 1.0 / nu_); // Shape and rate: mean dt, variance nu * dt
 
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
-- 
2.43.0


From 153018607f129c7cb1a016409020a7c6a36a78a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 06/30] fix: compute the variance gamma drift correction from
 the current volatility

---
 include/model/variance_gamma_model.h |  4 +++-
 src/model/variance_gamma_model.cpp   | 15 +++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/model/variance_gamma_model.h b/include/model/variance_gamma_model.h
index 5c50ce6..5d22b5d 100644
--- a/include/model/variance_gamma_model.h
+++ b/include/model/variance_gamma_model.h
@@ -20,7 +20,9 @@ namespace OptionPricer {
     private:
         double nu_;    // Variance rate of the Gamma process
         double theta_; // Drift of the Brownian motion
-        double omega_; // Drift correction term
+
+        // Drift correction term for the given volatility
+        [[nodiscard]] double calculateOmega(const double& sigma) const;
     };
 
 }
diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index 1feaaac..8e4465c 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -13,13 +13,19 @@ namespace OptionPricer {
                                            const double &nu, const double &theta)
         : StockModel(ticker, std::move(marketData), std::move(generator)),
           nu_(nu), theta_(theta) {
-        if (nu_ <= 0.0) {
+        if (!(nu_ > 0.0)) {
             throw std::invalid_argument("nu must be positive");
         }
+        calculateOmega(stockData_->getSigma()); // Reject parameters without a finite mean
+    }
 
+    double VarianceGammaModel::calculateOmega(const double &sigma) const {
         // Calculate the omega correction term that makes the actualized stock price a martingale
-        const double sigma = stockData_->getSigma();
-        omega_ = (1.0 / nu_) * std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_);
+        const double mean = 1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_;
+        if (!(mean > 0.0)) {
+            throw std::invalid_argument("1 - theta*nu - 0.5*sigma^2*nu must be positive");
+        }
+        return (1.0 / nu_) * std::log(mean);
     }
 
     VarianceGammaModel::~VarianceGammaModel() = default;
@@ -37,6 +43,7 @@ namespace OptionPricer {
         const double dt = T / static_cast<double>(steps);
 
         StandardNormalDistribution snDist;
+        const double omega = calculateOmega(sigma);
         GammaDistribution gammaDist(dt / nu_, 1.0 / nu_); // Shape and rate: mean dt, variance nu * dt
 
         std::vector<double> prices(steps);
@@ -44,7 +51,7 @@ namespace OptionPricer {
             const double g = (*generator_)(gammaDist); // Gamma subordinator
             const double z = (*generator_)(snDist);  // Normal distributed increment
 
-            const double drift = (r - c + omega_) * dt;
+            const double drift = (r - c + omega) * dt;
             const double VG = theta_ * g + sigma * std::sqrt(g) * z;
 
             S *= std::exp(drift + VG);
-- 
2.43.0


From 957f16573a28d80f15e1f4c199a110e4bf54b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 07/30] fix: a Kou jump goes either up or down, not both

---
 src/model/kou_model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index f936c74..e127218 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -59,9 +59,10 @@ namespace OptionPricer {
                 if (U < p_) {
                     const double upsideJump = (*generator_)(exponentialDistUp);
                     jumpSize += upsideJump;
+                } else {
+                    const double downsideJump = -(*generator_)(exponentialDistDown);
+                    jumpSize += downsideJump;
                 }
-                const double downsideJump = -(*generator_)(exponentialDistDown);
-                jumpSize += downsideJump;
             }
 
             // Update stock price
-- 
2.43.0


From 3ec130f3e3fee4bfab8afef29d7d1df3c3dcb509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 08/30] fix: reject Kou parameters without a finite mean jump

---
 src/model/kou_model.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index e127218..d457824 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -13,11 +13,11 @@ namespace OptionPricer {
                        const double &eta1, const double &eta2)
     : StockModel(ticker, std::move(marketData), std::move(generator)),
               lambda_(lambda), p_(p), eta1_(eta1), eta2_(eta2) {
-        if (p_ < 0 || p_ > 1)
+        if (!(p_ >= 0 && p_ <= 1))
             throw std::invalid_argument("p must be between [0,1].");
-        if (eta1_ < 1)
+        if (!(eta1_ > 1))
             throw std::invalid_argument("eta1 must be between larger than 1.");
-        if (eta2_ < 0)
+        if (!(eta2_ > 0))
             throw std::invalid_argument("eta2 must be between larger than 0.");
         muJ_ = p_ * (eta1_ / (eta1_-1)) + (1-p_) * (eta2_ / (eta2_+1));
     }
-- 
2.43.0


From b6bcb4f829fc8b41b34d543d14c4c429f48b1f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 09/30] fix: compensate the jumps in the Merton drift

---
 src/model/merton_jump_diffusion_model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index 2007e55..6aa11c9 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -37,8 +37,9 @@ namespace OptionPricer {
 
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
-            // Drift Part
-            const double drift = (r - c - 0.5 * sigma*sigma) * dt;
+            // Drift Part with risk neutral adjustment
+            const double kappaJ = exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_) - 1.0; // Mean relative jump size
+            const double drift = (r - c - 0.5 * sigma*sigma - lambda_ * kappaJ) * dt;
 
             // Diffusion part: Standard Brownian Motion
             const double z = (*generator_)(snDist);
-- 
2.43.0


From 36586a12933f67d2a9ca5c7702fc017a2b0f424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 10/30] fix: compensate the jumps in the Bates drift

---
 src/model/bates_model.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index 6c41cfd..ed8acd4 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -55,7 +55,8 @@ namespace OptionPricer {
 
             // Update stock price S(t+1) using variance v(t)
             const double VMax = std::max(V, 0.0);
-            const double drift = (r - c - 0.5 * VMax) * dt;
+            const double kappaJ = exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_) - 1.0; // Mean relative jump size
+            const double drift = (r - c - 0.5 * VMax - lambda_ * kappaJ) * dt;
             const double diffusion = sqrt(VMax * dt) * zS;
             S *= exp(drift + diffusion);
 
-- 
2.43.0


From 8ed9c4d2014de0bca261a04cd11414ca5a33d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 11/30] fix: keep the variance discretization given to the
 Heston model

---
 src/model/heston_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/heston_model.cpp b/src/model/heston_model.cpp
index 4f1e276..6ec13df 100644
--- a/src/model/heston_model.cpp
+++ b/src/model/heston_model.cpp
@@ -27,7 +27,7 @@ namespace OptionPricer {
         */
 
         // Apply default discretization if nullptr is passed
-        if (!varDiscretization) {
+        if (!varDiscretization_) {
             varDiscretization_ = std::make_shared<CIRExplicitEulerDiscretization>();
         }
     }
-- 
2.43.0


From 3d7264be319fe3ea609527e0f2aebde909739943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 12/30] fix: seed the Mersenne Twister with the generator seed

---
 include/random/number_generator/pseudo_random_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/random/number_generator/pseudo_random_generator.h b/include/random/number_generator/pseudo_random_generator.h
index 3ffc680..08d4844 100644
--- a/include/random/number_generator/pseudo_random_generator.h
+++ b/include/random/number_generator/pseudo_random_generator.h
@@ -13,7 +13,7 @@ namespace OptionPricer {
         double operator()(Distribution& dist) const override;
 
     private:
-        mutable std::mt19937 generator_; // Mersenne Twister PRNG
+        mutable std::mt19937 generator_{seed_}; // Mersenne Twister PRNG
     };
 
 }
-- 
2.43.0


From dc6d157b640697ddedb25b05277ad0358be24616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 13/30] fix: reject a generator of dimension zero

---
 src/random/number_generator/base_generator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random/number_generator/base_generator.cpp b/src/random/number_generator/base_generator.cpp
index 163f81b..6068834 100644
--- a/src/random/number_generator/base_generator.cpp
+++ b/src/random/number_generator/base_generator.cpp
@@ -4,12 +4,14 @@ namespace OptionPricer {
 
     NumberGenerator::NumberGenerator(const unsigned int &dim)
     : dim_(dim) {
+        validateDim();
         std::random_device rd;
         seed_ = rd();
     }
 
     NumberGenerator::NumberGenerator(const unsigned int &dim, const unsigned int& seed)
     : dim_(dim), seed_(seed) {
+        validateDim();
         if (seed_ < 0) {
             throw std::invalid_argument("seed parameter must be a positive integer");
         }
@@ -22,7 +24,7 @@ namespace OptionPricer {
     }
 
     void NumberGenerator::validateDim() const {
-        if (dim_ < 0) {
+        if (dim_ == 0) {
             throw std::invalid_argument("dim must be a positive integer");
         }
     }
-- 
2.43.0


From 71f9338f2a11ae807da7de1a2f88476d6a5505f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:57 +0000
Subject: [PATCH 14/30] fix: draw uniform numbers from the given interval

---
 src/random/distribution/continuous_uniform_distrib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/distribution/continuous_uniform_distrib.cpp b/src/random/distribution/continuous_uniform_distrib.cpp
index ebe5c43..0558a0a 100644
--- a/src/random/distribution/continuous_uniform_distrib.cpp
+++ b/src/random/distribution/continuous_uniform_distrib.cpp
@@ -2,7 +2,7 @@
 
 namespace OptionPricer {
     ContinuousUniformDistribution::ContinuousUniformDistribution(const double &a, const double &b)
-    : a_(a), b_(b) {
+    : a_(a), b_(b), uniform_dist_(a_, b_) {
         if (a_ >= b_)
             throw std::invalid_argument("a must lower than b");
     }
-- 
2.43.0


From 47836d7ceff4ddf644774c736b3072548f55ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 15/30] fix: reject NaN distribution parameters

---
 src/random/distribution/continuous_uniform_distrib.cpp | 2 +-
 src/random/distribution/exponential_distr.cpp          | 2 +-
 src/random/distribution/gamma_distrib.cpp              | 2 +-
 src/random/distribution/normal_distrib.cpp             | 2 +-
 src/random/distribution/poisson_distrib.cpp            | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/random/distribution/continuous_uniform_distrib.cpp b/src/random/distribution/continuous_uniform_distrib.cpp
index 0558a0a..f98a095 100644
--- a/src/random/distribution/continuous_uniform_distrib.cpp
+++ b/src/random/distribution/continuous_uniform_distrib.cpp
@@ -3,7 +3,7 @@
 namespace OptionPricer {
     ContinuousUniformDistribution::ContinuousUniformDistribution(const double &a, const double &b)
     : a_(a), b_(b), uniform_dist_(a_, b_) {
-        if (a_ >= b_)
+        if (!(a_ < b_))
             throw std::invalid_argument("a must lower than b");
     }
 
diff --git a/src/random/distribution/exponential_distr.cpp b/src/random/distribution/exponential_distr.cpp
index 677baaa..d561b62 100644
--- a/src/random/distribution/exponential_distr.cpp
+++ b/src/random/distribution/exponential_distr.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     ExponentialDistribution::ExponentialDistribution(const double &lambda)
     : lambda_(lambda), exponential_dist_(lambda_) {
-        if (lambda_ <= 0)
+        if (!(lambda_ > 0))
             throw std::invalid_argument("lambda must be positive");
     }
 
diff --git a/src/random/distribution/gamma_distrib.cpp b/src/random/distribution/gamma_distrib.cpp
index e2d871f..a72f012 100644
--- a/src/random/distribution/gamma_distrib.cpp
+++ b/src/random/distribution/gamma_distrib.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     GammaDistribution::GammaDistribution(const double &alpha, const double &beta)
     : alpha_(alpha), beta_(beta), gamma_dist_(alpha_, 1.0 / beta_) {
-        if (alpha_ <= 0 || beta_ <= 0) {
+        if (!(alpha_ > 0 && beta_ > 0)) {
             throw std::invalid_argument("alpha (shape) and beta (rate) parameters must be positive");
         }
     }
diff --git a/src/random/distribution/normal_distrib.cpp b/src/random/distribution/normal_distrib.cpp
index 9828f7e..976c6ec 100644
--- a/src/random/distribution/normal_distrib.cpp
+++ b/src/random/distribution/normal_distrib.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     NormalDistribution::NormalDistribution(const double &mu, const double &sigma)
     : mu_(mu), sigma_(sigma), normal_dist_(mu_, sigma_) {
-        if (sigma_ <= 0)
+        if (!(sigma_ > 0))
             throw std::invalid_argument("sigma must be positive");
     }
 
diff --git a/src/random/distribution/poisson_distrib.cpp b/src/random/distribution/poisson_distrib.cpp
index 56938b0..4b595f3 100644
--- a/src/random/distribution/poisson_distrib.cpp
+++ b/src/random/distribution/poisson_distrib.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     PoissonDistribution::PoissonDistribution(const double& lambda)
     : lambda_(lambda), poisson_dist_(lambda_) {
-        if (lambda_ <= 0.0) {
+        if (!(lambda_ > 0.0)) {
             throw std::invalid_argument("lambda must be positive");
         }
     }
-- 
2.43.0


From 3c385b534fe07fdf0106bd4ad518b48478164442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 16/30] fix: start the Laguerre recurrence with 1 - x

---
 src/numerical_analysis/basis_function/laguerre.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerical_analysis/basis_function/laguerre.cpp b/src/numerical_analysis/basis_function/laguerre.cpp
index 4ae3af8..32283f2 100644
--- a/src/numerical_analysis/basis_function/laguerre.cpp
+++ b/src/numerical_analysis/basis_function/laguerre.cpp
@@ -9,7 +9,7 @@ namespace OptionPricer {
         basis.col(0).setOnes(); // P0(x) = 1
 
         if (numberBasis_ > 1)
-            basis.col(1) = x; // P1(x) = x
+            basis.col(1) = 1 - x.array(); // P1(x) = 1 - x
 
         for (int n = 2; n < numberBasis_; ++n) {
             basis.col(n) = ((2 * (n-1) + 1 - x.array()) * basis.col(n-1).array()
-- 
2.43.0


From f1c67c64b44266f4394df8e9365ceb98fe5c64e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 17/30] fix: discount American cash flows also at dates without
 in-the-money paths

---
 src/solver/monte_carlo/mc_american.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/monte_carlo/mc_american.cpp b/src/solver/monte_carlo/mc_american.cpp
index ca479d4..b24d6cf 100644
--- a/src/solver/monte_carlo/mc_american.cpp
+++ b/src/solver/monte_carlo/mc_american.cpp
@@ -87,6 +87,8 @@ namespace OptionPricer {
                         americanPrices(i) *= discountFactor;
                     }
                 }
+            } else {
+                americanPrices *= discountFactor;
             }
         }
 
@@ -163,6 +165,8 @@ namespace OptionPricer {
                         americanPrices(i) *= discountFactor;
                     }
                 }
+            } else {
+                americanPrices *= discountFactor;
             }
         }
 
-- 
2.43.0


From 03114c332e5335d79faf2bc2fbd8ac3530aad051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 18/30] fix: Black-Scholes boundary values in time-to-maturity
 form

---
 .../pde/one_factor/black_scholes_pde.cpp                   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
index 8f29f66..60781ad 100644
--- a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
+++ b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
@@ -38,7 +38,8 @@ namespace OptionPricer::PDE::OneFactor {
             return 0.0;
         }
 
-        return payoff->getK();
+        const double r = marketData_->getR();
+        return payoff->getK() * std::exp(-r * t); // t is the time to maturity
     }
 
     double BlackScholesPDE::boundaryRight(const double &t, const double &x) const {
@@ -50,8 +51,8 @@ namespace OptionPricer::PDE::OneFactor {
         if (option_->getPayoff().getPayoffType() == PayoffType::Call) {
             const double K = payoff->getK();
             const double r = marketData_->getR();
-            const double T = option_->getT();
-            return x - K * std::exp(-r * (T - t));
+            const double c = marketData_->getStockData(option_->getID())->getCoupon().value_or(0.0);
+            return x * std::exp(-c * t) - K * std::exp(-r * t); // t is the time to maturity
         }
 
         return 0.0;
-- 
2.43.0


From 26d214534554662e2518de0fb100e8e74e322ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 19/30] fix: march exactly N-1 time steps in the finite
 difference solver

---
 .../solver/one_factor/base_fdm_solver.cpp                    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index 99b40c9..031091f 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -46,8 +46,9 @@ namespace OptionPricer::FDM::OneFactor {
     }
 
     std::vector<double> FDMSolver::solve() {
-        while(tCurr < tDom_) {
-            tCurr = tPrev + dt;
+        // Count the steps: accumulating dt may round to just below tDom_ and add one more step
+        for (unsigned long n = 1; !solved && n < N_; ++n) {
+            tCurr = static_cast<double>(n) * dt;
             calculateBoundaryConditions();
             calculateInnerDomain(); // To be overiden in concrete classes
             oldPrices = newPrices;
-- 
2.43.0


From fad87162bff9e93ad924d2a54f0f2e509413055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 20/30] fix: explicit Euler boundary values at the new time
 level

---
 .../solver/one_factor/euler_explicit_fdm_solver.cpp           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
index f2a87f5..0fa73f3 100644
--- a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
@@ -13,8 +13,8 @@ namespace OptionPricer::FDM::OneFactor {
     EulerExplicitFDM::~EulerExplicitFDM() = default;
 
     void EulerExplicitFDM::calculateBoundaryConditions() {
-        newPrices.front() = pde_->boundaryLeft(tPrev, xValues.front());
-        newPrices.back() = pde_->boundaryRight(tPrev, xValues.back());
+        newPrices.front() = pde_->boundaryLeft(tCurr, xValues.front());
+        newPrices.back() = pde_->boundaryRight(tCurr, xValues.back());
     }
 
     void EulerExplicitFDM::calculateInnerDomain() {
-- 
2.43.0


From a1cec752905094a55af5bdadf0116b2f12cd16b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 21/30] fix: include the boundary nodes in the explicit part of
 Crank-Nicolson

---
 .../solver/one_factor/crank_nicolson_fdm_solver.cpp       | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
index d2ffaa4..0e7ce0a 100644
--- a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
@@ -82,13 +82,7 @@ namespace OptionPricer::FDM::OneFactor {
             gamma = -0.5 * (dtSig + dtSig2);  // RHS (explicit) upper diagonal
 
             // Add the explicit part
-            b[j-1] += beta * oldPrices[j];
-            if (j > 1) {
-                b[j-1] += alpha * oldPrices[j-1];
-            }
-            if (j < J_-2) {
-                b[j-1] += gamma * oldPrices[j+1];
-            }
+            b[j-1] += alpha * oldPrices[j-1] + beta * oldPrices[j] + gamma * oldPrices[j+1];
 
             // Convert triplets to sparse matrices
             A.setFromTriplets(tripletListA.begin(), tripletListA.end());
-- 
2.43.0


From 53ec35c6b75115a4c065530db49b8f09a02c6003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 22/30] fix: solve the Crank-Nicolson system once, after all
 rows are assembled

---
 .../one_factor/crank_nicolson_fdm_solver.cpp     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
index 0e7ce0a..2b9f305 100644
--- a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
@@ -83,17 +83,17 @@ namespace OptionPricer::FDM::OneFactor {
 
             // Add the explicit part
             b[j-1] += alpha * oldPrices[j-1] + beta * oldPrices[j] + gamma * oldPrices[j+1];
+        }
 
-            // Convert triplets to sparse matrices
-            A.setFromTriplets(tripletListA.begin(), tripletListA.end());
+        // Convert triplets to sparse matrices
+        A.setFromTriplets(tripletListA.begin(), tripletListA.end());
 
-            // Solve for the matrix system A * newPrices = b
-            Eigen::VectorXd solution = matrixSolver_->solve(A, b);
+        // Solve for the matrix system A * newPrices = b
+        Eigen::VectorXd solution = matrixSolver_->solve(A, b);
 
-            // Copy the solution to the internal prices
-            for (unsigned long j = 1; j < (J_-1); ++j) {
-                newPrices[j] = solution[j-1];
-            }
+        // Copy the solution to the internal prices
+        for (unsigned long j = 1; j < (J_-1); ++j) {
+            newPrices[j] = solution[j-1];
         }
     }
 
-- 
2.43.0


From f0c2959a7058788619e893c0d20fc2d898ed400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 23/30] fix: builders do not keep the default model of one
 option for the next

---
 .../monte_carlo/builder/mc_builder_american.cpp    |  7 ++++---
 .../monte_carlo/builder/mc_builder_asian.cpp       | 14 ++++++++------
 .../monte_carlo/builder/mc_builder_barrier.cpp     | 14 ++++++++------
 .../monte_carlo/builder/mc_builder_single_path.cpp |  7 ++++---
 .../monte_carlo/builder/mc_lookback_builder.cpp    | 14 ++++++++------
 5 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/solver/monte_carlo/builder/mc_builder_american.cpp b/src/solver/monte_carlo/builder/mc_builder_american.cpp
index c3dd555..58619b8 100644
--- a/src/solver/monte_carlo/builder/mc_builder_american.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_american.cpp
@@ -28,12 +28,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> AmericanMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for AmericanMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model of this option for the next one
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel_,
+        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel,
                                                   basisFunctionStrategy_, regressionStrategy_);
     }
 
diff --git a/src/solver/monte_carlo/builder/mc_builder_asian.cpp b/src/solver/monte_carlo/builder/mc_builder_asian.cpp
index 4087ed6..c83802f 100644
--- a/src/solver/monte_carlo/builder/mc_builder_asian.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_asian.cpp
@@ -13,12 +13,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> ArithmeticAsianMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for ArithmeticAsianMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model of this option for the next one
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<ArithmeticAsianMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<ArithmeticAsianMCPricer>(option_, marketData_, stockModel);
     }
 
     // Geometric Asian
@@ -32,12 +33,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> GeometricAsianMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for GeometricAsianMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model of this option for the next one
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_builder_barrier.cpp b/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
index a0cd91a..90ca7d8 100644
--- a/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
@@ -14,12 +14,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> KnockInBarrierMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for KnockInBarrierMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model of this option for the next one
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel);
     }
 
     // Knock-Out
@@ -33,12 +34,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> KnockOutBarrierMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for KnockOutBarrierMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model of this option for the next one
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_builder_single_path.cpp b/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
index 7c1cb76..743d84b 100644
--- a/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
@@ -14,12 +14,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> MCSinglePathBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for AmericanMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_unique<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model of this option for the next one
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<SinglePathMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<SinglePathMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_lookback_builder.cpp b/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
index f38412b..46ffddd 100644
--- a/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
+++ b/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
@@ -15,12 +15,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> FloatingStrikeLookbackMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for FloatingStrikeLookbackMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model of this option for the next one
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<FloatingStrikeLookbackMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<FloatingStrikeLookbackMCPricer>(option_, marketData_, stockModel);
     }
 
     // Fixed Strike
@@ -36,12 +37,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> FixedStrikeLookbackMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for FixedStrikeLookbackMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model of this option for the next one
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<FixedStrikeLookbackMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<FixedStrikeLookbackMCPricer>(option_, marketData_, stockModel);
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From 2a6e16fad61638b71a4040c166e8f021f26905cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:16 +0000
Subject: [PATCH 24/30] fix: compare option type and barrier in option equality

---
 include/option/base_option.h                   | 2 ++
 include/option/path_dependent/barrier_option.h | 2 ++
 src/option/base_option.cpp                     | 4 ++++
 src/option/path_dependent/barrier_option.cpp   | 5 +++++
 4 files changed, 13 insertions(+)

diff --git a/include/option/base_option.h b/include/option/base_option.h
index 7fb2e0f..4ab28c0 100644
--- a/include/option/base_option.h
+++ b/include/option/base_option.h
@@ -57,6 +57,8 @@ namespace OptionPricer {
         Option(const std::string& ticker, std::unique_ptr<Payoff> payoff, const double& T,
             std::shared_ptr<IMarketData> marketData); // Parameter constructor
 
+        virtual bool compare(const Option& other) const; // Compare with an option of the same type
+
         double T_; // Maturity of the Option
         std::unique_ptr<Payoff> payoff_; // Unique ptr to Payoff functor
         std::shared_ptr<IMarketData> marketData_; // Shared ptr to IMarketData interface
diff --git a/include/option/path_dependent/barrier_option.h b/include/option/path_dependent/barrier_option.h
index 44eae86..5bfe498 100644
--- a/include/option/path_dependent/barrier_option.h
+++ b/include/option/path_dependent/barrier_option.h
@@ -20,6 +20,8 @@ namespace OptionPricer {
         BarrierOption(const std::string& ticker, std::unique_ptr<Payoff> payoff, const double& T, const double& B,
                       BarrierDirection direction, std::shared_ptr<IMarketData> marketData);
 
+        bool compare(const Option& other) const override;
+
         double B_; // Barrier level
         BarrierDirection direction_;
         std::unique_ptr<Payoff> payoff_;
diff --git a/src/option/base_option.cpp b/src/option/base_option.cpp
index 6c9d7af..d626f08 100644
--- a/src/option/base_option.cpp
+++ b/src/option/base_option.cpp
@@ -39,6 +39,10 @@ namespace OptionPricer {
     }
 
     bool Option::operator==(const Option &other) const {
+        return typeid(*this) == typeid(other) && compare(other);
+    }
+
+    bool Option::compare(const Option &other) const {
         return (T_ == other.T_ && *payoff_ == *other.payoff_ &&
           *marketData_->getStockData(id_) == *other.marketData_->getStockData(other.id_));
     }
diff --git a/src/option/path_dependent/barrier_option.cpp b/src/option/path_dependent/barrier_option.cpp
index b7f60bd..51211e5 100644
--- a/src/option/path_dependent/barrier_option.cpp
+++ b/src/option/path_dependent/barrier_option.cpp
@@ -20,6 +20,11 @@ namespace OptionPricer {
     : PathDependentOption(ticker, std::move(payoff), T, std::move(marketData)),
         B_(B), direction_(direction) {}
 
+    bool BarrierOption::compare(const Option &other) const {
+        const auto &barrier = dynamic_cast<const BarrierOption&>(other);
+        return B_ == barrier.B_ && direction_ == barrier.direction_ && PathDependentOption::compare(other);
+    }
+
     // Knock-In Barrier
     KnockInBarrierOption::~KnockInBarrierOption() = default;
 
-- 
2.43.0


From c594998d37a911de5c68fc0e8fa80b977262bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:41 +0000
Subject: [PATCH 25/30] fix: notify observers safely when an update adds or
 removes observers

---
 src/market_data/market_data.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/market_data/market_data.cpp b/src/market_data/market_data.cpp
index e299158..6b9e158 100644
--- a/src/market_data/market_data.cpp
+++ b/src/market_data/market_data.cpp
@@ -33,7 +33,8 @@ namespace OptionPricer {
     }
 
     void MarketData::notifyObserver(const std::string& id) const {
-        for (const auto& observer : observers_) {
+        const auto observers = observers_; // An update may add or remove observers
+        for (const auto& observer : observers) {
             if (auto obs = observer.lock()) {
                 if (obs->getID() == id) {
                     obs->update();
@@ -44,7 +45,8 @@ namespace OptionPricer {
 
     // Overloaded method that notify all observers
     void MarketData::notifyObservers() const {
-        for (const auto& observer : observers_) {
+        const auto observers = observers_; // An update may add or remove observers
+        for (const auto& observer : observers) {
             if (auto obs = observer.lock()) {
                 obs->update();
             }
-- 
2.43.0


From 0a2d55ffd942c87a73011b0058441f242eed91ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:37 +0000
Subject: [PATCH 26/30] fix: quadratic interpolation rejects a NaN abscissa
 instead of reading outside the grid

---
 .../interpolation/quadratic_interpolation.cpp               | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/numerical_analysis/interpolation/quadratic_interpolation.cpp b/src/numerical_analysis/interpolation/quadratic_interpolation.cpp
index ac52320..4c7e246 100644
--- a/src/numerical_analysis/interpolation/quadratic_interpolation.cpp
+++ b/src/numerical_analysis/interpolation/quadratic_interpolation.cpp
@@ -1,4 +1,6 @@
 #include "numerical_analysis/interpolation/quadratic_interpolation.h"
+#include <cmath>
+#include <stdexcept>
 
 namespace OptionPricer {
 
@@ -10,6 +12,10 @@ namespace OptionPricer {
         if (xInterp >= xValues.back())
             return yValues.back();
 
+        // A NaN is in no interval: the search would run below index 0 and read outside the grid
+        if (std::isnan(xInterp))
+            throw std::runtime_error("Interpolation error: Price not within grid range.");
+
         // Perform binary search to locate the interval [x_k, x_{k+1}] that contains S
         const unsigned int k = findInterval(xValues, xInterp);
 
-- 
2.43.0


From 52d2731d33c3962599ddc390163cb986fa00df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:27 +0000
Subject: [PATCH 27/30] fix: Ridge and Lasso reject a NaN regularization
 parameter

---
 src/numerical_analysis/regression/lasso.cpp | 2 +-
 src/numerical_analysis/regression/ridge.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerical_analysis/regression/lasso.cpp b/src/numerical_analysis/regression/lasso.cpp
index 319cc8c..60f62c8 100644
--- a/src/numerical_analysis/regression/lasso.cpp
+++ b/src/numerical_analysis/regression/lasso.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     LassoRegression::LassoRegression(const double &lambda)
     : lambda_(lambda) {
-        if (lambda_ < 0) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
+        if (!(lambda_ >= 0)) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
     }
 
     LassoRegression::~LassoRegression() = default;
diff --git a/src/numerical_analysis/regression/ridge.cpp b/src/numerical_analysis/regression/ridge.cpp
index d05ee96..c1b8a26 100644
--- a/src/numerical_analysis/regression/ridge.cpp
+++ b/src/numerical_analysis/regression/ridge.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     RidgeRegression::RidgeRegression(const double &lambda)
     : lambda_(lambda) {
-        if (lambda_ < 0) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
+        if (!(lambda_ >= 0)) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
     }
 
     RidgeRegression::~RidgeRegression() = default;
-- 
2.43.0


From 2c5ac2e67f28feb71b784e624eb73f30e36afe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:52 +0000
Subject: [PATCH 28/30] fix: the inverse normal CDF rejects a NaN quantile

---
 src/random/distribution/standard_normal_distribution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/distribution/standard_normal_distribution.cpp b/src/random/distribution/standard_normal_distribution.cpp
index d45a22b..33f8c82 100644
--- a/src/random/distribution/standard_normal_distribution.cpp
+++ b/src/random/distribution/standard_normal_distribution.cpp
@@ -12,7 +12,7 @@ namespace OptionPricer {
          * for approximating the inverse cumulative distribution function (CDF)
          * of the standard normal distribution, as described in Glasserman [2004].
          */
-        if (quantile <= 0.0 || quantile >= 1.0) {
+        if (!(quantile > 0.0 && quantile < 1.0)) { // also rejects NaN
             throw std::invalid_argument("quantile must be between (0,1)");
         }
 
-- 
2.43.0


From 52f6e8d50bea936d8a6ee975ffa0cd0d847dd19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:04 +0000
Subject: [PATCH 29/30] fix: adding a stock again updates the stored data that
 models share

---
 include/market_data/market_data.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/market_data/market_data.h b/include/market_data/market_data.h
index 0675bae..907cdb8 100644
--- a/include/market_data/market_data.h
+++ b/include/market_data/market_data.h
@@ -35,8 +35,13 @@ namespace OptionPricer {
         template<typename... Args>
         void addStock(const std::string& ticker, Args&&... args) {
             // Perfect forwarding C++17 to preserve rvalue/lvalue ness
-            stockDataMap_[ticker] = std::make_shared<StockData>(std::forward<Args>(args)...);
-        } // Potentially need to check if stockDataMap_[ticker] already exists
+            auto stockData = std::make_shared<StockData>(std::forward<Args>(args)...);
+            if (auto it = stockDataMap_.find(ticker); it != stockDataMap_.end()) {
+                *it->second = *stockData; // Models share the stored StockData: keep the object
+            } else {
+                stockDataMap_[ticker] = std::move(stockData);
+            }
+        }
 
         // Update & access StockData through the MarketData singleton
         void updateStockPrice(const std::string& ticker, double S);
-- 
2.43.0


From f77053da4366cddfc15fa69ea26c9a7d65e6d518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:20 +0000
Subject: [PATCH 30/30] fix: adding a stock again notifies its observers

---
 include/market_data/market_data.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/market_data/market_data.h b/include/market_data/market_data.h
index 907cdb8..628da32 100644
--- a/include/market_data/market_data.h
+++ b/include/market_data/market_data.h
@@ -38,6 +38,7 @@ namespace OptionPricer {
             auto stockData = std::make_shared<StockData>(std::forward<Args>(args)...);
             if (auto it = stockDataMap_.find(ticker); it != stockDataMap_.end()) {
                 *it->second = *stockData; // Models share the stored StockData: keep the object
+                notifyObserver(ticker);
             } else {
                 stockDataMap_[ticker] = std::move(stockData);
             }
-- 
2.43.0

