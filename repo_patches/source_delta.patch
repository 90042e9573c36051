From 4096e6c15ff2af5530183814dd263b8070b67a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:52 +0000
Subject: [PATCH 01/23] fix: covariance of a vector sample with a vector
 variate of a different size

The initial value of the covariance matrix was built as (sample x variate)
while every update adds a (variate x sample) matrix, so that with different
dimensions uBLAS throws (or, with NDEBUG, mixes up the elements).
---
 include/boost/accumulators/statistics/covariance.hpp          | 4 ++--
 include/boost/accumulators/statistics/weighted_covariance.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/covariance.hpp b/include/boost/accumulators/statistics/covariance.hpp
index d80a85e..90abba4 100644
--- a/include/boost/accumulators/statistics/covariance.hpp
+++ b/include/boost/accumulators/statistics/covariance.hpp
@@ -123,8 +123,8 @@ namespace impl
         covariance_impl(Args const &args)
           : cov_(
                 numeric::outer_product(
-                    numeric::fdiv(args[sample | Sample()], (std::size_t)1)
-                  , numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                    numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                  , numeric::fdiv(args[sample | Sample()], (std::size_t)1)
                 )
             )
         {
diff --git a/include/boost/accumulators/statistics/weighted_covariance.hpp b/include/boost/accumulators/statistics/weighted_covariance.hpp
index e423a22..f529cf0 100644
--- a/include/boost/accumulators/statistics/weighted_covariance.hpp
+++ b/include/boost/accumulators/statistics/weighted_covariance.hpp
@@ -66,9 +66,9 @@ namespace impl
         weighted_covariance_impl(Args const &args)
           : cov_(
                 numeric::outer_product(
-                    numeric::fdiv(args[sample | Sample()], (std::size_t)1)
+                    numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
                       * numeric::one<Weight>::value
-                  , numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                  , numeric::fdiv(args[sample | Sample()], (std::size_t)1)
                       * numeric::one<Weight>::value
                 )
             )
-- 
2.43.0


From 3a1e2c4e6ba3877b55b09647bd3266074efb80c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:04 +0000
Subject: [PATCH 02/23] fix: extracting rolling_window did not compile

rolling_window_impl::result named the extractor rolling_window_plus1, which is
declared only further down the header.
---
 include/boost/accumulators/statistics/rolling_window.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index a43ecdf..4916a4e 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -155,7 +155,8 @@ namespace impl
         template<typename Args>
         result_type result(Args const &args) const
         {
-            return rolling_window_plus1(args).advance_begin(is_rolling_window_plus1_full(args));
+            extractor<tag::rolling_window_plus1> const some_rolling_window_plus1 = {};
+            return some_rolling_window_plus1(args).advance_begin(is_rolling_window_plus1_full(args));
         }
         
         // serialization is done by accumulators it depends on
-- 
2.43.0


From 0e4b5d10a7e82310924de5adf477e20d7f4715a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:23 +0000
Subject: [PATCH 03/23] fix: update order when an equivalent feature replaces a
 dependency

When a dependency is satisfied by an equivalent feature (stats<rolling_variance(immediate),
rolling_mean(lazy)>: the lazy mean stands in for the immediate one), the accumulators were
sorted without the dependencies of the replacement. rolling_sum could then be updated after
the variance that reads the lazy mean, and the variance was computed from a stale mean.
---
 .../accumulators/framework/depends_on.hpp     | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/framework/depends_on.hpp b/include/boost/accumulators/framework/depends_on.hpp
index e0036ac..911226a 100644
--- a/include/boost/accumulators/framework/depends_on.hpp
+++ b/include/boost/accumulators/framework/depends_on.hpp
@@ -9,6 +9,8 @@
 #define BOOST_ACCUMULATORS_FRAMEWORK_DEPENDS_ON_HPP_EAN_28_10_2005
 
 #include <boost/version.hpp>
+#include <boost/mpl/at.hpp>
+#include <boost/mpl/or.hpp>
 #include <boost/mpl/end.hpp>
 #include <boost/mpl/map.hpp>
 #include <boost/mpl/set.hpp>
@@ -404,6 +406,30 @@ namespace boost { namespace accumulators
         {
         };
 
+        // Like is_dependent_on, but follows the features that were actually selected
+        // for the dependencies of A. These can be equivalent features that have other
+        // dependencies than the ones A names (a lazy mean instead of an immediate one).
+        template<typename FeatureMap, typename Weight, typename A, typename B>
+        struct is_dependent_on_selected
+          : mpl::or_<
+                is_dependent_on<A, B>
+              , mpl::fold<
+                    as_feature_list<typename A::dependencies, Weight>
+                  , mpl::false_
+                  , mpl::or_<
+                        mpl::_1
+                      , is_dependent_on_selected<
+                            FeatureMap
+                          , Weight
+                          , mpl::at<FeatureMap, feature_of<mpl::_2> >
+                          , B
+                        >
+                    >
+                >
+            >
+        {
+        };
+
         template<typename Features, typename Sample, typename Weight>
         struct make_accumulator_tuple
         {
@@ -441,7 +467,12 @@ namespace boost { namespace accumulators
             typedef
                 typename mpl::sort<
                     feature_vector_with_dependencies
-                  , is_dependent_on<mpl::_2, mpl::_1>
+                  , is_dependent_on_selected<
+                        feature_map_with_dependencies
+                      , Weight
+                      , mpl::_2
+                      , mpl::_1
+                    >
                 >::type
             sorted_feature_vector;
 
-- 
2.43.0


From 8956fad1a522881f983ef9d75623fc97c955ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:40 +0000
Subject: [PATCH 04/23] fix: coherent_tail_mean of the left tail

The conditional expression was not parenthesised, so that for the left tail
n/count was not subtracted from the probability.
---
 include/boost/accumulators/statistics/tail_mean.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/tail_mean.hpp b/include/boost/accumulators/statistics/tail_mean.hpp
index f56606d..50794b0 100644
--- a/include/boost/accumulators/statistics/tail_mean.hpp
+++ b/include/boost/accumulators/statistics/tail_mean.hpp
@@ -84,7 +84,7 @@ namespace impl
             return some_non_coherent_tail_mean(args)
                  + numeric::fdiv(quantile(args), n)
                  * (
-                     ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability]
+                     ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] )
                      - numeric::fdiv(n, count(args))
                    );
         }
-- 
2.43.0


From a06cfe19c45d5d83a327336eac420d6402e8d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:00 +0000
Subject: [PATCH 05/23] fix: tail_quantile and tail_variate_means when exactly
 the needed samples are cached

The order statistic of rank n is at index n-1, so a cache that holds n samples is
enough, as documented and as non_coherent_tail_mean does it; the results were NaN.
Rank 0 (probability 0 or 1) was read from before the beginning of the cache.
---
 include/boost/accumulators/statistics/tail_quantile.hpp      | 2 +-
 include/boost/accumulators/statistics/tail_variate_means.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/tail_quantile.hpp b/include/boost/accumulators/statistics/tail_quantile.hpp
index ed1f6e6..a380ca7 100644
--- a/include/boost/accumulators/statistics/tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/tail_quantile.hpp
@@ -77,7 +77,7 @@ namespace impl
             );
 
             // If n is in a valid range, return result, otherwise return NaN or throw exception
-            if ( n < static_cast<std::size_t>(tail(args).size()))
+            if ( n > 0 && n <= static_cast<std::size_t>(tail(args).size()))
             {
                // Note that the cached samples of the left are sorted in ascending order,
                // whereas the samples of the right tail are sorted in descending order
diff --git a/include/boost/accumulators/statistics/tail_variate_means.hpp b/include/boost/accumulators/statistics/tail_variate_means.hpp
index efe9f7c..aeea8db 100644
--- a/include/boost/accumulators/statistics/tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/tail_variate_means.hpp
@@ -104,7 +104,7 @@ namespace impl
             this->tail_means_.resize(num_variates, Sample(0));
 
             // If n is in a valid range, return result, otherwise return NaN or throw exception
-            if (n < static_cast<std::size_t>(tail(args).size()))
+            if (n <= static_cast<std::size_t>(tail(args).size()))
             {
                 this->tail_means_ = std::accumulate(
                     tail_variate(args).begin()
-- 
2.43.0


From ea6ded4fd21d46e6a16290528932bebac8c130e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:00 +0000
Subject: [PATCH 06/23] fix: weighted_tail_variate_means never returned when
 the cache is too small

The loop that adds up the cached weights had no exit once the cache was exhausted
before the threshold is reached; return NaNs like the other tail statistics do.
---
 .../statistics/weighted_tail_variate_means.hpp        | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
index f096a93..aa50fc6 100644
--- a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
@@ -120,6 +120,11 @@ namespace impl
             float_type threshold = sum_of_weights(args)
                              * ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] );
 
+            std::size_t num_variates = tail_variate(args).begin()->size();
+
+            this->tail_means_.clear();
+            this->tail_means_.resize(num_variates, Sample(0));
+
             std::size_t n = 0;
             Weight sum = Weight(0);
 
@@ -139,6 +144,7 @@ namespace impl
                           , this->tail_means_.end()
                           , std::numeric_limits<float_type>::quiet_NaN()
                         );
+                        return make_iterator_range(this->tail_means_);
                     }
                     else
                     {
@@ -149,11 +155,6 @@ namespace impl
                 }
             }
 
-            std::size_t num_variates = tail_variate(args).begin()->size();
-
-            this->tail_means_.clear();
-            this->tail_means_.resize(num_variates, Sample(0));
-
             this->tail_means_ = std::inner_product(
                 tail_variate(args).begin()
               , tail_variate(args).begin() + n
-- 
2.43.0


From ada8a6506a6f3d97798085aa8694dc247202a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:53 +0000
Subject: [PATCH 07/23] fix: weighted_p_square_cumulative_distribution marker
 positions

The initial position of the last marker was not cumulated, so that the
cumulative distribution did not end at 1, and the desired positions were
shifted by one marker, so that the cells were not equiprobable.
---
 .../accumulators/statistics/weighted_p_square_cumul_dist.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
index f8a44d6..24a666a 100644
--- a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
+++ b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
@@ -111,7 +111,7 @@ namespace impl
                     }
 
                     // calculate correct initial actual positions
-                    for (std::size_t i = 1; i < b; ++i)
+                    for (std::size_t i = 1; i < b + 1; ++i)
                     {
                         this->actual_positions[i] += this->actual_positions[i - 1];
                     }
@@ -153,7 +153,7 @@ namespace impl
                 for (std::size_t i = 1; i < b + 1; ++i)
                 {
                     this->desired_positions[i] = this->actual_positions[0]
-                                               + numeric::fdiv((i-1) * (sum_of_weights(args) - this->actual_positions[0]), b);
+                                               + numeric::fdiv(i * (sum_of_weights(args) - this->actual_positions[0]), b);
                 }
 
                 // adjust heights of markers 2 to num_cells if necessary
-- 
2.43.0


From 5af117d8c34efd6cbcca814d5656e534aaadd679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:42 +0000
Subject: [PATCH 08/23] fix: median(with_density) went wrong from the second
 extraction on

The running sum was not reset when the median is computed again.
---
 include/boost/accumulators/statistics/median.hpp          | 1 +
 include/boost/accumulators/statistics/weighted_median.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 4d4118d..91e4ca9 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -96,6 +96,7 @@ namespace impl
                 std::size_t cnt = count(args);
                 range_type histogram = density(args);
                 typename range_type::iterator it = histogram.begin();
+                this->sum = 0.;
                 while (this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 22224a8..9c2a04c 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -93,6 +93,7 @@ namespace impl
                 std::size_t cnt = count(args);
                 range_type histogram = weighted_density(args);
                 typename range_type::iterator it = histogram.begin();
+                this->sum = 0.;
                 while (this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
-- 
2.43.0


From 16d6d95867b884ee2c85e2d42ef19cc045024057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:42 +0000
Subject: [PATCH 09/23] fix: median(with_density) read past the histogram when
 the median lies in the overflow bin

---
 include/boost/accumulators/statistics/median.hpp          | 5 ++++-
 include/boost/accumulators/statistics/weighted_median.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 91e4ca9..fd6c38f 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -104,7 +104,10 @@ namespace impl
                 }
                 --it;
                 float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
-                this->median = it->first * over + (it + 1)->first * (1. - over);
+                // the overflow bin has no upper bound: take it as large as the bin below
+                typename range_type::iterator next = it + 1;
+                float_type upper = next != histogram.end() ? next->first : it->first + (it->first - (it - 1)->first);
+                this->median = it->first * over + upper * (1. - over);
             }
 
             return this->median;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 9c2a04c..238432a 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -101,7 +101,10 @@ namespace impl
                 }
                 --it;
                 float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                // the overflow bin has no upper bound: take it as large as the bin below
+                typename range_type::iterator next = it + 1;
+                float_type upper = next != histogram.end() ? next->first : it->first + (it->first - (it - 1)->first);
+                this->median = it->first * over + upper * (1. - over);
             }
 
             return this->median;
-- 
2.43.0


From 00109a5804c92908a5b1bf0ed2c46893545373f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:42 +0000
Subject: [PATCH 10/23] fix: median(with_p_square_cumulative_distribution)
 interpolated in the wrong cell

The cumulative distribution crosses 0.5 between the previous and the current
marker; the next marker was used instead, reading past either end of the
histogram when the crossing is at its first or last marker.
---
 include/boost/accumulators/statistics/median.hpp      | 11 +++++++++--
 .../boost/accumulators/statistics/weighted_median.hpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index fd6c38f..c63a939 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -172,8 +172,15 @@ namespace impl
                 {
                     ++it;
                 }
-                float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                if (it == histogram.begin())
+                {
+                    this->median = it->first;
+                }
+                else
+                {
+                    float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
+                    this->median = (it - 1)->first * over + it->first * ( 1. - over );
+                }
             }
 
             return this->median;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 238432a..a0140a4 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -169,8 +169,15 @@ namespace impl
                 {
                     ++it;
                 }
-                float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                if (it == histogram.begin())
+                {
+                    this->median = it->first;
+                }
+                else
+                {
+                    float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
+                    this->median = (it - 1)->first * over + it->first * ( 1. - over );
+                }
             }
 
             return this->median;
-- 
2.43.0


From a5371eb0a9870f08c042a156031ae80139a53987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:40 +0000
Subject: [PATCH 11/23] fix: quadratic extended_p_square_quantile with fewer
 than three probabilities read before its markers

---
 .../accumulators/statistics/extended_p_square_quantile.hpp     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/extended_p_square_quantile.hpp b/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
index a4ac3cd..9f7254c 100644
--- a/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
+++ b/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
@@ -128,7 +128,8 @@ namespace impl
             {
                 result_type res;
 
-                if (is_same<Impl2, linear>::value)
+                // a parabola needs three points
+                if (is_same<Impl2, linear>::value || this->probabilities.size() < 3)
                 {
                     /////////////////////////////////////////////////////////////////////////////////
                     // LINEAR INTERPOLATION
-- 
2.43.0


From 15b6b1600d4f915137c34da752fa6c3218b1c378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:07 +0000
Subject: [PATCH 12/23] fix: peaks_over_threshold gave another fit every time
 it was extracted

Extracting the fit overwrote the accumulated sums (and, for the left tail,
flipped the threshold probability), so any sample after the first extraction
gave a wrong fit; and a fit that is not available was reported as NaN only the
first time.
---
 .../statistics/peaks_over_threshold.hpp       | 47 +++++++++---------
 .../weighted_peaks_over_threshold.hpp         | 49 ++++++++++---------
 2 files changed, 50 insertions(+), 46 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index de73c65..1916e63 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -164,15 +164,15 @@ namespace impl
 
                 std::size_t cnt = count(args);
 
-                this->mu_ = sign::value * numeric::fdiv(this->mu_, this->Nu_);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, this->Nu_);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                float_type mu = sign::value * numeric::fdiv(this->mu_, this->Nu_);
+                float_type sigma2 = numeric::fdiv(this->sigma2_, this->Nu_);
+                sigma2 -= mu * mu;
 
                 float_type threshold_probability = numeric::fdiv(cnt - this->Nu_, cnt);
 
-                float_type tmp = numeric::fdiv(( this->mu_ - this->threshold_ )*( this->mu_ - this->threshold_ ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - this->threshold_ )*( mu - this->threshold_ ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - this->threshold_ ) * ( 1. + tmp );
+                float_type beta_hat = 0.5 * ( mu - this->threshold_ ) * ( 1. + tmp );
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = this->threshold_ - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
@@ -198,8 +198,8 @@ namespace impl
 
     private:
         std::size_t Nu_;                     // number of samples larger than threshold
-        mutable float_type mu_;              // mean of Nu_ largest samples
-        mutable float_type sigma2_;          // variance of Nu_ largest samples
+        float_type mu_;                      // sum of Nu_ largest samples
+        float_type sigma2_;                  // sum of squares of Nu_ largest samples
         float_type threshold_;
         mutable result_type fit_parameters_; // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
@@ -246,8 +246,6 @@ namespace impl
         {
             if (this->is_dirty_)
             {
-                this->is_dirty_ = false;
-
                 std::size_t cnt = count(args);
 
                 // the n'th cached sample provides an approximate threshold value u
@@ -280,26 +278,31 @@ namespace impl
                 {
                     float_type u = *(tail(args).begin() + n - 1) * sign::value;
 
+                    float_type mu = this->mu_;
+                    float_type sigma2 = this->sigma2_;
+                    float_type threshold_probability = this->threshold_probability_;
+
                     // compute mean and variance of samples above/under threshold value u
                     for (std::size_t i = 0; i < n; ++i)
                     {
-                        mu_ += *(tail(args).begin() + i);
-                        sigma2_ += *(tail(args).begin() + i) * (*(tail(args).begin() + i));
+                        mu += *(tail(args).begin() + i);
+                        sigma2 += *(tail(args).begin() + i) * (*(tail(args).begin() + i));
                     }
 
-                    this->mu_ = sign::value * numeric::fdiv(this->mu_, n);
-                    this->sigma2_ = numeric::fdiv(this->sigma2_, n);
-                    this->sigma2_ -= this->mu_ * this->mu_;
+                    mu = sign::value * numeric::fdiv(mu, n);
+                    sigma2 = numeric::fdiv(sigma2, n);
+                    sigma2 -= mu * mu;
 
                     if (is_same<LeftRight, left>::value)
-                        this->threshold_probability_ = 1. - this->threshold_probability_;
+                        threshold_probability = 1. - threshold_probability;
 
-                    float_type tmp = numeric::fdiv(( this->mu_ - u )*( this->mu_ - u ), this->sigma2_);
+                    float_type tmp = numeric::fdiv(( mu - u )*( mu - u ), sigma2);
                     float_type xi_hat = 0.5 * ( 1. - tmp );
-                    float_type beta_hat = 0.5 * ( this->mu_ - u ) * ( 1. + tmp );
-                    float_type beta_bar = beta_hat * std::pow(1. - threshold_probability_, xi_hat);
-                    float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability_, -xi_hat) - 1.)/xi_hat;
+                    float_type beta_hat = 0.5 * ( mu - u ) * ( 1. + tmp );
+                    float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
+                    float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                     this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
+                    this->is_dirty_ = false;
                 }
             }
 
@@ -321,9 +324,9 @@ namespace impl
         }
 
     private:
-        mutable float_type mu_;                     // mean of samples above threshold u
-        mutable float_type sigma2_;                 // variance of samples above threshold u
-        mutable float_type threshold_probability_;
+        float_type mu_;                             // initial value of the sum of samples above threshold u
+        float_type sigma2_;                         // initial value of the sum of their squares
+        float_type threshold_probability_;
         mutable result_type fit_parameters_;        // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
     };
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index f3dc327..337196c 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -92,15 +92,15 @@ namespace impl
             {
                 this->is_dirty_ = false;
 
-                this->mu_ = this->sign_ * numeric::fdiv(this->mu_, this->w_sum_);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, this->w_sum_);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                float_type mu = this->sign_ * numeric::fdiv(this->mu_, this->w_sum_);
+                float_type sigma2 = numeric::fdiv(this->sigma2_, this->w_sum_);
+                sigma2 -= mu * mu;
 
                 float_type threshold_probability = numeric::fdiv(sum_of_weights(args) - this->w_sum_, sum_of_weights(args));
 
-                float_type tmp = numeric::fdiv(( this->mu_ - this->threshold_ )*( this->mu_ - this->threshold_ ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - this->threshold_ )*( mu - this->threshold_ ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - this->threshold_ ) * ( 1. + tmp );
+                float_type beta_hat = 0.5 * ( mu - this->threshold_ ) * ( 1. + tmp );
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = this->threshold_ - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
@@ -124,9 +124,9 @@ namespace impl
 
     private:
         short sign_;                         // for left tail fitting, mirror the extreme values
-        mutable float_type mu_;              // mean of samples above threshold
-        mutable float_type sigma2_;          // variance of samples above threshold
-        mutable float_type w_sum_;           // sum of weights of samples above threshold
+        float_type mu_;                      // weighted sum of samples above threshold
+        float_type sigma2_;                  // weighted sum of squares of samples above threshold
+        float_type w_sum_;                   // sum of weights of samples above threshold
         float_type threshold_;
         mutable result_type fit_parameters_; // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
@@ -173,20 +173,21 @@ namespace impl
         {
             if (this->is_dirty_)
             {
-                this->is_dirty_ = false;
-
                 float_type threshold = sum_of_weights(args)
                              * ( ( is_same<LeftRight, left>::value ) ? this->threshold_probability_ : 1. - this->threshold_probability_ );
 
                 std::size_t n = 0;
                 Weight sum = Weight(0);
+                float_type mu = this->mu_;
+                float_type sigma2 = this->sigma2_;
+                float_type threshold_probability = this->threshold_probability_;
 
                 while (sum < threshold)
                 {
                     if (n < static_cast<std::size_t>(tail_weights(args).size()))
                     {
-                        mu_ += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n);
-                        sigma2_ += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n) * (*(tail(args).begin() + n));
+                        mu += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n);
+                        sigma2 += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n) * (*(tail(args).begin() + n));
                         sum += *(tail_weights(args).begin() + n);
                         n++;
                     }
@@ -213,20 +214,20 @@ namespace impl
                 float_type u = *(tail(args).begin() + n - 1) * this->sign_;
 
 
-                this->mu_ = this->sign_ * numeric::fdiv(this->mu_, sum);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, sum);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                mu = this->sign_ * numeric::fdiv(mu, sum);
+                sigma2 = numeric::fdiv(sigma2, sum);
+                sigma2 -= mu * mu;
 
                 if (is_same<LeftRight, left>::value)
-                    this->threshold_probability_ = 1. - this->threshold_probability_;
+                    threshold_probability = 1. - threshold_probability;
 
-                float_type tmp = numeric::fdiv(( this->mu_ - u )*( this->mu_ - u ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - u )*( mu - u ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - u ) * ( 1. + tmp );
-                float_type beta_bar = beta_hat * std::pow(1. - threshold_probability_, xi_hat);
-                float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability_, -xi_hat) - 1.)/xi_hat;
+                float_type beta_hat = 0.5 * ( mu - u ) * ( 1. + tmp );
+                float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
+                float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
-
+                this->is_dirty_ = false;
             }
 
             return this->fit_parameters_;
@@ -234,9 +235,9 @@ namespace impl
 
     private:
         short sign_;                                // for left tail fitting, mirror the extreme values
-        mutable float_type mu_;                     // mean of samples above threshold u
-        mutable float_type sigma2_;                 // variance of samples above threshold u
-        mutable float_type threshold_probability_;
+        float_type mu_;                             // initial value of the weighted sum of samples above threshold u
+        float_type sigma2_;                         // initial value of the weighted sum of their squares
+        float_type threshold_probability_;
         mutable result_type fit_parameters_;        // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
     };
-- 
2.43.0


From 337ef6f19bcf7cdcf1c0f9575c7185e9202d3de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:36 +0000
Subject: [PATCH 13/23] fix: headers that use std::ostringstream did not
 include <sstream>

---
 .../boost/accumulators/statistics/extended_p_square_quantile.hpp | 1 +
 .../accumulators/statistics/weighted_peaks_over_threshold.hpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/accumulators/statistics/extended_p_square_quantile.hpp b/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
index 9f7254c..7d0be7b 100644
--- a/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
+++ b/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
@@ -9,6 +9,7 @@
 #define BOOST_ACCUMULATORS_STATISTICS_EXTENDED_SINGLE_QUANTILE_HPP_DE_01_01_2006
 
 #include <vector>
+#include <sstream>
 #include <functional>
 #include <boost/throw_exception.hpp>
 #include <boost/range/begin.hpp>
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 337196c..d054b16 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -9,6 +9,7 @@
 #define BOOST_ACCUMULATORS_STATISTICS_WEIGHTED_PEAKS_OVER_THRESHOLD_HPP_DE_01_01_2006
 
 #include <vector>
+#include <sstream>
 #include <limits>
 #include <numeric>
 #include <functional>
-- 
2.43.0


From 0ba9181dfcbaf8c6fc13cd5479b8443bae1f4736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:41 +0000
Subject: [PATCH 14/23] fix: a saved rolling window was read back wrongly once
 the window had wrapped

save wrote the two halves of the circular buffer as two binary blobs, load read one; with a text
archive the second half came back as garbage. Elements are now archived one by one, which also
works for samples that are not plain bytes.
---
 .../statistics/rolling_window.hpp             | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index 4916a4e..bf5cacb 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -32,10 +32,11 @@ void save(Archive& ar, const circular_buffer<T>& b, const unsigned int /* versio
     typename circular_buffer<T>::size_type size = b.size();
     ar << b.capacity();
     ar << size;
-    const typename circular_buffer<T>::const_array_range one = b.array_one();
-    const typename circular_buffer<T>::const_array_range two = b.array_two();
-    ar.save_binary(one.first, one.second*sizeof(T));
-    ar.save_binary(two.first, two.second*sizeof(T));
+    for (typename circular_buffer<T>::const_iterator it = b.begin(); it != b.end(); ++it)
+    {
+        const T &value = *it;
+        ar << value;
+    }
 }
 
 template <class Archive, class T>
@@ -47,10 +48,12 @@ void load(Archive& ar, circular_buffer<T>& b, const unsigned int /* version */)
     b.set_capacity(capacity);
     ar >> size;
     b.clear();
-    const typename circular_buffer<T>::pointer buff = new T[size*sizeof(T)];
-    ar.load_binary(buff, size*sizeof(T));
-    b.insert(b.begin(), buff, buff+size);
-    delete[] buff;
+    for (; size != 0; --size)
+    {
+        T value = T();
+        ar >> value;
+        b.push_back(value);
+    }
 }
 
 template<class Archive, class T>
-- 
2.43.0


From daff3ba9820d3ad2ceccc8524738ed135f95f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:41 +0000
Subject: [PATCH 15/23] fix: weighted peaks over threshold could not be
 serialized

serialize did not compile (it archived a tuple), left out the sum of weights above the threshold,
and was missing for the variant with a threshold probability.
---
 .../weighted_peaks_over_threshold.hpp         | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index d054b16..3afd8b0 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -118,8 +118,11 @@ namespace impl
             ar & sign_;
             ar & mu_;
             ar & sigma2_;
+            ar & w_sum_;
             ar & threshold_;
-            ar & fit_parameters_;
+            ar & get<0>(fit_parameters_);
+            ar & get<1>(fit_parameters_);
+            ar & get<2>(fit_parameters_);
             ar & is_dirty_;
         }
 
@@ -234,6 +237,21 @@ namespace impl
             return this->fit_parameters_;
         }
 
+        // make this accumulator serializeable
+        // TODO: do we need to split to load/save and verify that threshold did not change?
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int /* file_version */)
+        {
+            ar & sign_;
+            ar & mu_;
+            ar & sigma2_;
+            ar & threshold_probability_;
+            ar & get<0>(fit_parameters_);
+            ar & get<1>(fit_parameters_);
+            ar & get<2>(fit_parameters_);
+            ar & is_dirty_;
+        }
+
     private:
         short sign_;                                // for left tail fitting, mirror the extreme values
         float_type mu_;                             // initial value of the weighted sum of samples above threshold u
-- 
2.43.0


From 46dd669a7c323360734d232b0c73500eed05a360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:41 +0000
Subject: [PATCH 16/23] fix: accumulators without a usable serialize member

A set with one of these statistics did not compile when it was serialized: the member was missing,
or private in tail_variate.
---
 .../boost/accumulators/statistics/error_of.hpp    |  4 ++++
 .../accumulators/statistics/error_of_mean.hpp     |  4 ++++
 .../accumulators/statistics/tail_variate.hpp      | 15 +++++++--------
 .../accumulators/statistics/weighted_kurtosis.hpp |  4 ++++
 .../accumulators/statistics/weighted_mean.hpp     |  4 ++++
 .../accumulators/statistics/weighted_median.hpp   |  4 ++++
 .../accumulators/statistics/weighted_skewness.hpp |  4 ++++
 .../statistics/weighted_tail_mean.hpp             |  4 ++++
 .../statistics/weighted_tail_quantile.hpp         |  4 ++++
 .../accumulators/statistics/weighted_variance.hpp |  4 ++++
 10 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/include/boost/accumulators/statistics/error_of.hpp b/include/boost/accumulators/statistics/error_of.hpp
index a29da02..192f570 100644
--- a/include/boost/accumulators/statistics/error_of.hpp
+++ b/include/boost/accumulators/statistics/error_of.hpp
@@ -50,6 +50,10 @@ namespace impl
         {
             return 0;
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/error_of_mean.hpp b/include/boost/accumulators/statistics/error_of_mean.hpp
index 7cd923d..371bc3f 100644
--- a/include/boost/accumulators/statistics/error_of_mean.hpp
+++ b/include/boost/accumulators/statistics/error_of_mean.hpp
@@ -40,6 +40,10 @@ namespace impl
             extractor<Variance> const variance = {};
             return sqrt(numeric::fdiv(variance(args), count(args) - 1));
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/tail_variate.hpp b/include/boost/accumulators/statistics/tail_variate.hpp
index 6885ece..9897095 100644
--- a/include/boost/accumulators/statistics/tail_variate.hpp
+++ b/include/boost/accumulators/statistics/tail_variate.hpp
@@ -59,6 +59,13 @@ namespace impl
             return this->do_result(some_tail(args));
         }
 
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        { 
+            ar & variates;
+        }
+
     private:
         template<typename TailRng>
         result_type do_result(TailRng const &rng) const
@@ -70,14 +77,6 @@ namespace impl
             );
         }
 
-        // make this accumulator serializeable
-        template<class Archive>
-        void serialize(Archive & ar, const unsigned int file_version)
-        { 
-            ar & variates;
-        }
-
-    private:
         std::vector<VariateType> variates;
     };
 
diff --git a/include/boost/accumulators/statistics/weighted_kurtosis.hpp b/include/boost/accumulators/statistics/weighted_kurtosis.hpp
index 3fd4ed7..4fd7ba5 100644
--- a/include/boost/accumulators/statistics/weighted_kurtosis.hpp
+++ b/include/boost/accumulators/statistics/weighted_kurtosis.hpp
@@ -70,6 +70,10 @@ namespace impl
                         * ( accumulators::weighted_moment<2>(args) - weighted_mean(args) * weighted_mean(args) )
                    ) - 3.;
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_mean.hpp b/include/boost/accumulators/statistics/weighted_mean.hpp
index 3214af6..f170703 100644
--- a/include/boost/accumulators/statistics/weighted_mean.hpp
+++ b/include/boost/accumulators/statistics/weighted_mean.hpp
@@ -55,6 +55,10 @@ namespace impl
 
             return numeric::fdiv(some_weighted_sum(args), sum_of_weights(args));
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
     ///////////////////////////////////////////////////////////////////////////////
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index a0140a4..d36f214 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -49,6 +49,10 @@ namespace impl
         {
             return weighted_p_square_quantile_for_median(args);
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
     ///////////////////////////////////////////////////////////////////////////////
diff --git a/include/boost/accumulators/statistics/weighted_skewness.hpp b/include/boost/accumulators/statistics/weighted_skewness.hpp
index a3ac387..1674f33 100644
--- a/include/boost/accumulators/statistics/weighted_skewness.hpp
+++ b/include/boost/accumulators/statistics/weighted_skewness.hpp
@@ -66,6 +66,10 @@ namespace impl
                       * std::sqrt( accumulators::weighted_moment<2>(args) - weighted_mean(args) * weighted_mean(args) )
                    );
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_tail_mean.hpp b/include/boost/accumulators/statistics/weighted_tail_mean.hpp
index bae8530..f1b1390 100644
--- a/include/boost/accumulators/statistics/weighted_tail_mean.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_mean.hpp
@@ -130,6 +130,10 @@ namespace impl
               , sum
             );
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
index b143457..df1b567 100644
--- a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
@@ -108,6 +108,10 @@ namespace impl
             // whereas the samples of the right tail are sorted in descending order
             return *(boost::begin(tail(args)) + n - 1);
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 } // namespace impl
 
diff --git a/include/boost/accumulators/statistics/weighted_variance.hpp b/include/boost/accumulators/statistics/weighted_variance.hpp
index f7d2b6e..38141d8 100644
--- a/include/boost/accumulators/statistics/weighted_variance.hpp
+++ b/include/boost/accumulators/statistics/weighted_variance.hpp
@@ -52,6 +52,10 @@ namespace impl
             result_type tmp = some_mean(args);
             return accumulators::weighted_moment<2>(args) - tmp * tmp;
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
     //! Iterative calculation of variance of weighted samples.
-- 
2.43.0


From 785c373b19077df20aaf981beafb8b290c8e65fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:33 +0000
Subject: [PATCH 17/23] fix: drop released the dependencies of the wrong
 feature

accumulator_set::drop took the dependencies from the abstract feature instead of from the accumulator
that provides it, so dropping e.g. a lazy variance, an immediate mean or a weighted mean left some of
its dependencies running and stopped others that are still in use.
---
 include/boost/accumulators/framework/accumulator_set.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/boost/accumulators/framework/accumulator_set.hpp b/include/boost/accumulators/framework/accumulator_set.hpp
index e89e5e9..056e03e 100644
--- a/include/boost/accumulators/framework/accumulator_set.hpp
+++ b/include/boost/accumulators/framework/accumulator_set.hpp
@@ -430,15 +430,11 @@ struct accumulator_set
         typedef typename apply<Feature>::type the_accumulator;
         BOOST_MPL_ASSERT((detail::contains_feature_of<Features, the_accumulator>));
 
-        typedef
-            typename feature_of<typename as_feature<Feature>::type>::type
-        the_feature;
-
         (*fusion::find_if<detail::matches_feature<Feature> >(this->accumulators))
             .drop(boost::accumulators::accumulator = *this);
 
-        // Also drop accumulators that this feature depends on
-        typedef typename the_feature::dependencies dependencies;
+        // Also drop accumulators that this accumulator depends on
+        typedef typename the_accumulator::feature_tag::dependencies dependencies;
         this->template visit_if<detail::contains_feature_of_<dependencies> >(
             detail::make_drop_visitor(boost::accumulators::accumulator = *this)
         );
-- 
2.43.0


From 059e280184b27b8587759f48183658353fa11a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:33 +0000
Subject: [PATCH 18/23] fix: with_cached_result copied and destroyed a result
 that was never stored

Accumulators have reference count zero while the set is being built, and were taken for dropped then.
---
 .../accumulators/droppable_accumulator.hpp          | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp b/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
index 21fdb51..554b598 100644
--- a/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
+++ b/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
@@ -192,12 +192,14 @@ namespace boost { namespace accumulators
         with_cached_result(Args const &args)
           : Accumulator(args)
           , cache()
+          , has_result_(false)
         {
         }
 
         with_cached_result(with_cached_result const &that)
           : Accumulator(*static_cast<Accumulator const *>(&that))
           , cache()
+          , has_result_(false)
         {
             if(that.has_result())
             {
@@ -207,10 +209,6 @@ namespace boost { namespace accumulators
 
         ~with_cached_result()
         {
-            // Since this is a base class of droppable_accumulator_base,
-            // this destructor is called before any of droppable_accumulator_base's
-            // members get cleaned up, including is_dropped, so the following
-            // call to has_result() is valid.
             if(this->has_result())
             {
                 this->get().~result_type();
@@ -237,6 +235,7 @@ namespace boost { namespace accumulators
         void set(result_type const &r)
         {
             ::new(this->cache.address()) result_type(r);
+            this->has_result_ = true;
         }
 
         result_type const &get() const
@@ -246,12 +245,12 @@ namespace boost { namespace accumulators
 
         bool has_result() const
         {
-            typedef with_cached_result<Accumulator> this_type;
-            typedef droppable_accumulator_base<this_type> derived_type;
-            return static_cast<derived_type const *>(this)->is_dropped();
+            // An accumulator that is not add_ref'ed yet is not dropped
+            return this->has_result_;
         }
 
         aligned_storage<sizeof(result_type)> cache;
+        bool has_result_;
     };
 
     namespace tag
-- 
2.43.0


From 80a50968c07aeccce3e04e405dd9a02bd0f62e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:09 +0000
Subject: [PATCH 19/23] fix: weighted_tail_quantile read before its cache at a
 level of zero or without samples

---
 .../boost/accumulators/statistics/weighted_tail_quantile.hpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
index df1b567..9bb2954 100644
--- a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
@@ -81,7 +81,8 @@ namespace impl
             std::size_t n = 0;
             Weight sum = Weight(0);
 
-            while (sum < threshold)
+            // at least one sample, also at a level of zero
+            while (n == 0 || sum < threshold)
             {
                 if (n < static_cast<std::size_t>(tail_weights(args).size()))
                 {
-- 
2.43.0


From 84bf02828e7ecc37482ae959ef92628d899177a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:09 +0000
Subject: [PATCH 20/23] fix: tail variate means of an empty set read outside
 the cache

---
 include/boost/accumulators/statistics/tail_variate_means.hpp    | 2 +-
 .../accumulators/statistics/weighted_tail_variate_means.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/tail_variate_means.hpp b/include/boost/accumulators/statistics/tail_variate_means.hpp
index aeea8db..a251b22 100644
--- a/include/boost/accumulators/statistics/tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/tail_variate_means.hpp
@@ -98,7 +98,7 @@ namespace impl
                 )
             );
 
-            std::size_t num_variates = tail_variate(args).begin()->size();
+            std::size_t num_variates = tail_variate(args).empty() ? 0 : tail_variate(args).begin()->size();
 
             this->tail_means_.clear();
             this->tail_means_.resize(num_variates, Sample(0));
diff --git a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
index aa50fc6..ea51a9a 100644
--- a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
@@ -120,7 +120,7 @@ namespace impl
             float_type threshold = sum_of_weights(args)
                              * ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] );
 
-            std::size_t num_variates = tail_variate(args).begin()->size();
+            std::size_t num_variates = tail_variate(args).empty() ? 0 : tail_variate(args).begin()->size();
 
             this->tail_means_.clear();
             this->tail_means_.resize(num_variates, Sample(0));
-- 
2.43.0


From abf21f4e0517eb409e9b9adc3b32a3ccda245093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:57 +0000
Subject: [PATCH 21/23] fix: medians read outside a density or distribution
 that is not there yet

---
 .../boost/accumulators/statistics/median.hpp   | 18 +++++++++++++++---
 .../statistics/weighted_median.hpp             | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index c63a939..9a45f79 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -8,6 +8,7 @@
 #ifndef BOOST_ACCUMULATORS_STATISTICS_MEDIAN_HPP_EAN_28_10_2005
 #define BOOST_ACCUMULATORS_STATISTICS_MEDIAN_HPP_EAN_28_10_2005
 
+#include <limits>
 #include <boost/mpl/placeholders.hpp>
 #include <boost/range/iterator_range.hpp>
 #include <boost/accumulators/framework/accumulator_base.hpp>
@@ -97,11 +98,17 @@ namespace impl
                 range_type histogram = density(args);
                 typename range_type::iterator it = histogram.begin();
                 this->sum = 0.;
-                while (this->sum < 0.5 * cnt)
+                while (it != histogram.end() && this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
                     ++it;
                 }
+                if (it == histogram.begin() || this->sum < 0.5 * cnt)
+                {
+                    // there is no histogram before its cache is full
+                    this->median = std::numeric_limits<float_type>::quiet_NaN();
+                    return this->median;
+                }
                 --it;
                 float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
                 // the overflow bin has no upper bound: take it as large as the bin below
@@ -168,11 +175,16 @@ namespace impl
 
                 range_type histogram = p_square_cumulative_distribution(args);
                 typename range_type::iterator it = histogram.begin();
-                while (it->second < 0.5)
+                while (it != histogram.end() && it->second < 0.5)
                 {
                     ++it;
                 }
-                if (it == histogram.begin())
+                if (it == histogram.end())
+                {
+                    // there is no distribution before the first num_cells + 1 samples
+                    this->median = std::numeric_limits<float_type>::quiet_NaN();
+                }
+                else if (it == histogram.begin())
                 {
                     this->median = it->first;
                 }
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index d36f214..6dc3160 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -8,6 +8,7 @@
 #ifndef BOOST_ACCUMULATORS_STATISTICS_WEIGHTED_MEDIAN_HPP_EAN_28_10_2005
 #define BOOST_ACCUMULATORS_STATISTICS_WEIGHTED_MEDIAN_HPP_EAN_28_10_2005
 
+#include <limits>
 #include <boost/mpl/placeholders.hpp>
 #include <boost/range/iterator_range.hpp>
 #include <boost/accumulators/framework/accumulator_base.hpp>
@@ -98,11 +99,17 @@ namespace impl
                 range_type histogram = weighted_density(args);
                 typename range_type::iterator it = histogram.begin();
                 this->sum = 0.;
-                while (this->sum < 0.5 * cnt)
+                while (it != histogram.end() && this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
                     ++it;
                 }
+                if (it == histogram.begin() || this->sum < 0.5 * cnt)
+                {
+                    // there is no histogram before its cache is full
+                    this->median = std::numeric_limits<float_type>::quiet_NaN();
+                    return this->median;
+                }
                 --it;
                 float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
                 // the overflow bin has no upper bound: take it as large as the bin below
@@ -169,11 +176,16 @@ namespace impl
 
                 range_type histogram = weighted_p_square_cumulative_distribution(args);
                 typename range_type::iterator it = histogram.begin();
-                while (it->second < 0.5)
+                while (it != histogram.end() && it->second < 0.5)
                 {
                     ++it;
                 }
-                if (it == histogram.begin())
+                if (it == histogram.end())
+                {
+                    // there is no distribution before the first num_cells + 1 samples
+                    this->median = std::numeric_limits<float_type>::quiet_NaN();
+                }
+                else if (it == histogram.begin())
                 {
                     this->median = it->first;
                 }
-- 
2.43.0


From 7b53c5a5d36b11c98ee19f3516746a0dfb1a0401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:57 +0000
Subject: [PATCH 22/23] fix: peaks over threshold read before the cache when no
 sample lies in the tail

---
 include/boost/accumulators/statistics/peaks_over_threshold.hpp | 2 +-
 .../accumulators/statistics/weighted_peaks_over_threshold.hpp  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index 1916e63..4c4146d 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -256,7 +256,7 @@ namespace impl
                 );
 
                 // If n is in a valid range, return result, otherwise return NaN or throw exception
-                if ( n >= static_cast<std::size_t>(tail(args).size()))
+                if ( n == 0 || n >= static_cast<std::size_t>(tail(args).size()))
                 {
                     if (std::numeric_limits<float_type>::has_quiet_NaN)
                     {
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 3afd8b0..9fea4c7 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -186,7 +186,8 @@ namespace impl
                 float_type sigma2 = this->sigma2_;
                 float_type threshold_probability = this->threshold_probability_;
 
-                while (sum < threshold)
+                // at least one sample, also without any in the set
+                while (n == 0 || sum < threshold)
                 {
                     if (n < static_cast<std::size_t>(tail_weights(args).size()))
                     {
-- 
2.43.0


From 8d3c803471c83f501ad9b3c281440de19dc1e97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:51 +0000
Subject: [PATCH 23/23] fix: dropped accumulators came back to life, and cached
 results were lost, when a set was restored from an archive

---
 .../accumulators/droppable_accumulator.hpp    | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp b/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
index 554b598..d2843f4 100644
--- a/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
+++ b/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
@@ -157,6 +157,14 @@ namespace boost { namespace accumulators
             return 0 == this->ref_count_;
         }
 
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        {
+            this->Accumulator::serialize(ar, file_version);
+            ar & this->ref_count_;
+        }
+
     private:
         int ref_count_;
     };
@@ -229,6 +237,30 @@ namespace boost { namespace accumulators
             return this->has_result() ? this->get() : this->Accumulator::result(args);
         }
 
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        {
+            this->Accumulator::serialize(ar, file_version);
+            // swap the cached result, if any, with the one of the archive
+            bool has_result = this->has_result();
+            result_type r = has_result ? this->get() : result_type();
+            ar & has_result;
+            if(has_result)
+            {
+                ar & r;
+            }
+            if(this->has_result())
+            {
+                this->get().~result_type();
+                this->has_result_ = false;
+            }
+            if(has_result)
+            {
+                this->set(r);
+            }
+        }
+
     private:
         BOOST_DELETED_FUNCTION(with_cached_result &operator =(with_cached_result const &))
 
-- 
2.43.0

