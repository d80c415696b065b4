From 8a2ceb4e01de2d265c9ebb7e851810ffe16f22cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:29 +0000
Subject: [PATCH 01/32] fix: initialise the covariance matrix with the
 dimensions its updates have

For vector-valued samples and variates of different sizes the covariance was
initialised as sample x variate but updated with variate x sample matrices, so
the second sample already mixed matrices of different shapes.
---
 include/boost/accumulators/statistics/covariance.hpp          | 4 ++--
 include/boost/accumulators/statistics/weighted_covariance.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/covariance.hpp b/include/boost/accumulators/statistics/covariance.hpp
index d80a85e..90abba4 100644
--- a/include/boost/accumulators/statistics/covariance.hpp
+++ b/include/boost/accumulators/statistics/covariance.hpp
@@ -123,8 +123,8 @@ namespace impl
         covariance_impl(Args const &args)
           : cov_(
                 numeric::outer_product(
-                    numeric::fdiv(args[sample | Sample()], (std::size_t)1)
-                  , numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                    numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                  , numeric::fdiv(args[sample | Sample()], (std::size_t)1)
                 )
             )
         {
diff --git a/include/boost/accumulators/statistics/weighted_covariance.hpp b/include/boost/accumulators/statistics/weighted_covariance.hpp
index e423a22..f529cf0 100644
--- a/include/boost/accumulators/statistics/weighted_covariance.hpp
+++ b/include/boost/accumulators/statistics/weighted_covariance.hpp
@@ -66,9 +66,9 @@ namespace impl
         weighted_covariance_impl(Args const &args)
           : cov_(
                 numeric::outer_product(
-                    numeric::fdiv(args[sample | Sample()], (std::size_t)1)
+                    numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
                       * numeric::one<Weight>::value
-                  , numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                  , numeric::fdiv(args[sample | Sample()], (std::size_t)1)
                       * numeric::one<Weight>::value
                 )
             )
-- 
2.43.0


From 089c95a600ad5155aea77f2c8e6f495d9a7a7837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:11 +0000
Subject: [PATCH 02/32] fix: do not let one accumulator move a temporary named
 argument away from the others

sample, covariate1 and covariate2 were forwarding keywords, so a temporary
passed by name was moved into the first accumulator that stored it and every
other accumulator of the set saw an empty value. Declare them as in parameters.
---
 include/boost/accumulators/framework/parameters/sample.hpp  | 2 +-
 .../boost/accumulators/statistics/variates/covariate.hpp    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/framework/parameters/sample.hpp b/include/boost/accumulators/framework/parameters/sample.hpp
index 39afe2b..3456fe9 100644
--- a/include/boost/accumulators/framework/parameters/sample.hpp
+++ b/include/boost/accumulators/framework/parameters/sample.hpp
@@ -14,7 +14,7 @@
 namespace boost { namespace accumulators
 {
 
-BOOST_PARAMETER_NAME((sample, tag) sample)
+BOOST_PARAMETER_NAME((sample, tag) in(sample))
 BOOST_ACCUMULATORS_IGNORE_GLOBAL(sample)
 
 }} // namespace boost::accumulators
diff --git a/include/boost/accumulators/statistics/variates/covariate.hpp b/include/boost/accumulators/statistics/variates/covariate.hpp
index aba113a..df8c027 100644
--- a/include/boost/accumulators/statistics/variates/covariate.hpp
+++ b/include/boost/accumulators/statistics/variates/covariate.hpp
@@ -8,14 +8,14 @@
 #ifndef BOOST_ACCUMULATORS_STATISTICS_VARIATES_COVARIATE_HPP_EAN_03_11_2005
 #define BOOST_ACCUMULATORS_STATISTICS_VARIATES_COVARIATE_HPP_EAN_03_11_2005
 
-#include <boost/parameter/keyword.hpp>
+#include <boost/parameter/name.hpp>
 #include <boost/accumulators/accumulators_fwd.hpp>
 
 namespace boost { namespace accumulators
 {
 
-BOOST_PARAMETER_KEYWORD(tag, covariate1)
-BOOST_PARAMETER_KEYWORD(tag, covariate2)
+BOOST_PARAMETER_NAME((covariate1, tag) in(covariate1))
+BOOST_PARAMETER_NAME((covariate2, tag) in(covariate2))
 
 BOOST_ACCUMULATORS_IGNORE_GLOBAL(covariate1)
 BOOST_ACCUMULATORS_IGNORE_GLOBAL(covariate2)
-- 
2.43.0


From 5db15babf18a78e537e72a46718384d21124393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:23 +0000
Subject: [PATCH 03/32] fix: immediate mean of a variate or of the weights
 starts from that variate's own example value

---
 include/boost/accumulators/statistics/mean.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/mean.hpp b/include/boost/accumulators/statistics/mean.hpp
index 699fad7..9851792 100644
--- a/include/boost/accumulators/statistics/mean.hpp
+++ b/include/boost/accumulators/statistics/mean.hpp
@@ -56,7 +56,7 @@ namespace impl
 
         template<typename Args>
         immediate_mean_impl(Args const &args)
-          : mean(numeric::fdiv(args[sample | Sample()], numeric::one<std::size_t>::value))
+          : mean(numeric::fdiv(args[parameter::keyword<Tag>::get() | Sample()], numeric::one<std::size_t>::value))
         {
         }
 
-- 
2.43.0


From c6e21247982494e3f30ef267106d968c44d3f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:52 +0000
Subject: [PATCH 04/32] fix: make the rolling_window extractor usable

---
 include/boost/accumulators/statistics/rolling_window.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index a43ecdf..0624ccc 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -155,7 +155,9 @@ namespace impl
         template<typename Args>
         result_type result(Args const &args) const
         {
-            return rolling_window_plus1(args).advance_begin(is_rolling_window_plus1_full(args));
+            // the extractor object is declared further down
+            extractor<tag::rolling_window_plus1> const some_rolling_window = {};
+            return some_rolling_window(args).advance_begin(is_rolling_window_plus1_full(args));
         }
         
         // serialization is done by accumulators it depends on
-- 
2.43.0


From 2c8d1ae2893788720089a0379437f825ba420e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:12 +0000
Subject: [PATCH 05/32] fix: apply the correction term of the coherent tail
 mean to the left tail, too

---
 include/boost/accumulators/statistics/tail_mean.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/tail_mean.hpp b/include/boost/accumulators/statistics/tail_mean.hpp
index f56606d..50794b0 100644
--- a/include/boost/accumulators/statistics/tail_mean.hpp
+++ b/include/boost/accumulators/statistics/tail_mean.hpp
@@ -84,7 +84,7 @@ namespace impl
             return some_non_coherent_tail_mean(args)
                  + numeric::fdiv(quantile(args), n)
                  * (
-                     ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability]
+                     ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] )
                      - numeric::fdiv(n, count(args))
                    );
         }
-- 
2.43.0


From fbb0ae343c45a463f0b9e07c0ba7dd99c6e6c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:12 +0000
Subject: [PATCH 06/32] fix: tail_quantile accepts every rank the cache holds
 and none before the first

---
 include/boost/accumulators/statistics/tail_quantile.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/tail_quantile.hpp b/include/boost/accumulators/statistics/tail_quantile.hpp
index ed1f6e6..0324b21 100644
--- a/include/boost/accumulators/statistics/tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/tail_quantile.hpp
@@ -77,7 +77,7 @@ namespace impl
             );
 
             // If n is in a valid range, return result, otherwise return NaN or throw exception
-            if ( n < static_cast<std::size_t>(tail(args).size()))
+            if ( 0 < n && n <= static_cast<std::size_t>(tail(args).size()))
             {
                // Note that the cached samples of the left are sorted in ascending order,
                // whereas the samples of the right tail are sorted in descending order
@@ -92,7 +92,7 @@ namespace impl
                 else
                 {
                     std::ostringstream msg;
-                    msg << "index n = " << n << " is not in valid range [0, " << tail(args).size() << ")";
+                    msg << "index n = " << n << " is not in valid range [1, " << tail(args).size() << "]";
                     boost::throw_exception(std::runtime_error(msg.str()));
                     return Sample(0);
                 }
-- 
2.43.0


From a06665c3cbad1702c90925049d53e1197fbbd8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:12 +0000
Subject: [PATCH 07/32] fix: weighted_tail_quantile no longer reads before the
 first cached sample

---
 .../statistics/weighted_tail_quantile.hpp          | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
index b143457..0b358ec 100644
--- a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
@@ -104,6 +104,20 @@ namespace impl
                 }
             }
 
+            // No weight is asked for (or there is none): there is no such order statistic
+            if (n == 0)
+            {
+                if (std::numeric_limits<result_type>::has_quiet_NaN)
+                {
+                    return std::numeric_limits<result_type>::quiet_NaN();
+                }
+                else
+                {
+                    boost::throw_exception(std::runtime_error("no samples in the requested tail"));
+                    return Sample(0);
+                }
+            }
+
             // Note that the cached samples of the left are sorted in ascending order,
             // whereas the samples of the right tail are sorted in descending order
             return *(boost::begin(tail(args)) + n - 1);
-- 
2.43.0


From 55025eb59664ceb90335fc71037297817b097290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:12 +0000
Subject: [PATCH 08/32] fix: tail_variate_means uses the whole cache and
 survives an empty one

---
 include/boost/accumulators/statistics/tail_variate_means.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/tail_variate_means.hpp b/include/boost/accumulators/statistics/tail_variate_means.hpp
index efe9f7c..f8c2079 100644
--- a/include/boost/accumulators/statistics/tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/tail_variate_means.hpp
@@ -98,13 +98,14 @@ namespace impl
                 )
             );
 
-            std::size_t num_variates = tail_variate(args).begin()->size();
+            // without any cached variates, their number is not known
+            std::size_t num_variates = tail_variate(args).empty() ? 0 : tail_variate(args).begin()->size();
 
             this->tail_means_.clear();
             this->tail_means_.resize(num_variates, Sample(0));
 
             // If n is in a valid range, return result, otherwise return NaN or throw exception
-            if (n < static_cast<std::size_t>(tail(args).size()))
+            if (n <= static_cast<std::size_t>(tail(args).size()))
             {
                 this->tail_means_ = std::accumulate(
                     tail_variate(args).begin()
-- 
2.43.0


From 9f729765afdd8ce0368afe4012510012a0f7b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:12 +0000
Subject: [PATCH 09/32] fix: weighted_tail_variate_means terminates when the
 cache cannot answer and survives an empty one

---
 .../statistics/weighted_tail_variate_means.hpp       | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
index f096a93..9c07207 100644
--- a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
@@ -120,6 +120,12 @@ namespace impl
             float_type threshold = sum_of_weights(args)
                              * ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] );
 
+            // without any cached variates, their number is not known
+            std::size_t num_variates = tail_variate(args).empty() ? 0 : tail_variate(args).begin()->size();
+
+            this->tail_means_.clear();
+            this->tail_means_.resize(num_variates, Sample(0));
+
             std::size_t n = 0;
             Weight sum = Weight(0);
 
@@ -139,6 +145,7 @@ namespace impl
                           , this->tail_means_.end()
                           , std::numeric_limits<float_type>::quiet_NaN()
                         );
+                        return make_iterator_range(this->tail_means_);
                     }
                     else
                     {
@@ -149,11 +156,6 @@ namespace impl
                 }
             }
 
-            std::size_t num_variates = tail_variate(args).begin()->size();
-
-            this->tail_means_.clear();
-            this->tail_means_.resize(num_variates, Sample(0));
-
             this->tail_means_ = std::inner_product(
                 tail_variate(args).begin()
               , tail_variate(args).begin() + n
-- 
2.43.0


From 8a1289a65689043b906f046a7609e3466710113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:41 +0000
Subject: [PATCH 10/32] fix: give the last marker of the weighted P^2
 distribution its cumulative weight

---
 .../accumulators/statistics/weighted_p_square_cumul_dist.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
index f8a44d6..dc6a272 100644
--- a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
+++ b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
@@ -111,7 +111,7 @@ namespace impl
                     }
 
                     // calculate correct initial actual positions
-                    for (std::size_t i = 1; i < b; ++i)
+                    for (std::size_t i = 1; i < b + 1; ++i)
                     {
                         this->actual_positions[i] += this->actual_positions[i - 1];
                     }
-- 
2.43.0


From 041899e14c4a6dd29f3ddbc78f317a0f1e17eeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:41 +0000
Subject: [PATCH 11/32] fix: desired marker positions of the weighted P^2
 distribution were one marker off

---
 .../accumulators/statistics/weighted_p_square_cumul_dist.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
index dc6a272..24a666a 100644
--- a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
+++ b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
@@ -153,7 +153,7 @@ namespace impl
                 for (std::size_t i = 1; i < b + 1; ++i)
                 {
                     this->desired_positions[i] = this->actual_positions[0]
-                                               + numeric::fdiv((i-1) * (sum_of_weights(args) - this->actual_positions[0]), b);
+                                               + numeric::fdiv(i * (sum_of_weights(args) - this->actual_positions[0]), b);
                 }
 
                 // adjust heights of markers 2 to num_cells if necessary
-- 
2.43.0


From bfae0d0ece2b496bd6d0a5c01e38725d331725b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:41 +0000
Subject: [PATCH 12/32] fix: interpolate linearly between only two extended P^2
 quantiles instead of reading a third

---
 .../accumulators/statistics/extended_p_square_quantile.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/extended_p_square_quantile.hpp b/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
index a4ac3cd..1f67a6c 100644
--- a/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
+++ b/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
@@ -128,7 +128,7 @@ namespace impl
             {
                 result_type res;
 
-                if (is_same<Impl2, linear>::value)
+                if (is_same<Impl2, linear>::value || this->probabilities.size() < 3)
                 {
                     /////////////////////////////////////////////////////////////////////////////////
                     // LINEAR INTERPOLATION
-- 
2.43.0


From f51001f4eafaf6529778e4294ec5597501fac439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:31 +0000
Subject: [PATCH 13/32] fix: weighted_density keeps bin positions in a type
 that holds the samples, not just the weights

---
 include/boost/accumulators/statistics/weighted_density.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_density.hpp b/include/boost/accumulators/statistics/weighted_density.hpp
index 6b5a0ee..1de2e26 100644
--- a/include/boost/accumulators/statistics/weighted_density.hpp
+++ b/include/boost/accumulators/statistics/weighted_density.hpp
@@ -52,7 +52,8 @@ namespace impl
     struct weighted_density_impl
       : accumulator_base
     {
-        typedef typename numeric::functional::fdiv<Weight, std::size_t>::result_type float_type;
+        typedef typename numeric::functional::multiplies<Sample, Weight>::result_type weighted_sample;
+        typedef typename numeric::functional::fdiv<weighted_sample, std::size_t>::result_type float_type;
         typedef std::vector<std::pair<float_type, float_type> > histogram_type;
         typedef std::vector<float_type> array_type;
         // for boost::result_of
-- 
2.43.0


From d748cb72fe3f813d3227b1671596b8bb134e4f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:52 +0000
Subject: [PATCH 14/32] fix: with_density_weighted_median takes the histogram
 type of the weighted density it reads

---
 include/boost/accumulators/statistics/weighted_median.hpp | 7 ++++---
 include/boost/accumulators/statistics_fwd.hpp             | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 22224a8..d6b9c6e 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -61,11 +61,12 @@ namespace impl
         the total number of samples. It returns the approximate horizontal position of this sample,
         based on a linear interpolation inside the bin.
     */
-    template<typename Sample>
+    template<typename Sample, typename Weight>
     struct with_density_weighted_median_impl
       : accumulator_base
     {
-        typedef typename numeric::functional::fdiv<Sample, std::size_t>::result_type float_type;
+        typedef typename numeric::functional::multiplies<Sample, Weight>::result_type weighted_sample;
+        typedef typename numeric::functional::fdiv<weighted_sample, std::size_t>::result_type float_type;
         typedef std::vector<std::pair<float_type, float_type> > histogram_type;
         typedef iterator_range<typename histogram_type::iterator> range_type;
         // for boost::result_of
@@ -206,7 +207,7 @@ namespace tag
     {
         /// INTERNAL ONLY
         ///
-        typedef accumulators::impl::with_density_weighted_median_impl<mpl::_1> impl;
+        typedef accumulators::impl::with_density_weighted_median_impl<mpl::_1, mpl::_2> impl;
     };
     struct with_p_square_cumulative_distribution_weighted_median
       : depends_on<weighted_p_square_cumulative_distribution>
diff --git a/include/boost/accumulators/statistics_fwd.hpp b/include/boost/accumulators/statistics_fwd.hpp
index 61904f3..878d75d 100644
--- a/include/boost/accumulators/statistics_fwd.hpp
+++ b/include/boost/accumulators/statistics_fwd.hpp
@@ -306,7 +306,7 @@ namespace impl
     template<typename Sample>
     struct weighted_median_impl;
 
-    template<typename Sample>
+    template<typename Sample, typename Weight>
     struct with_density_weighted_median_impl;
 
     template<typename Sample, typename Weight>
-- 
2.43.0


From 2e25918c5c374c4cdf031aea752b8a3aa93ab3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:52 +0000
Subject: [PATCH 15/32] fix: restart the cumulative count on every evaluation
 of the density-based median

---
 include/boost/accumulators/statistics/median.hpp          | 1 +
 include/boost/accumulators/statistics/weighted_median.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 4d4118d..a32c805 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -96,6 +96,7 @@ namespace impl
                 std::size_t cnt = count(args);
                 range_type histogram = density(args);
                 typename range_type::iterator it = histogram.begin();
+                this->sum = float_type(0);
                 while (this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index d6b9c6e..a0bd783 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -94,6 +94,7 @@ namespace impl
                 std::size_t cnt = count(args);
                 range_type histogram = weighted_density(args);
                 typename range_type::iterator it = histogram.begin();
+                this->sum = float_type(0);
                 while (this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
-- 
2.43.0


From 0ad49f72d7d9b67be5d3ad290211d8178e2e0d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:52 +0000
Subject: [PATCH 16/32] fix: density-based median no longer reads past the
 histogram when it lies in the overflow bin

---
 include/boost/accumulators/statistics/median.hpp          | 4 +++-
 include/boost/accumulators/statistics/weighted_median.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index a32c805..4e5c328 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -104,7 +104,9 @@ namespace impl
                 }
                 --it;
                 float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
-                this->median = it->first * over + (it + 1)->first * (1. - over);
+                // the overflow bin has no right neighbour; it is as wide as the other bins
+                float_type upper = it + 1 != histogram.end() ? (it + 1)->first : it->first + (it->first - (it - 1)->first);
+                this->median = it->first * over + upper * (1. - over);
             }
 
             return this->median;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index a0bd783..863a21d 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -102,7 +102,9 @@ namespace impl
                 }
                 --it;
                 float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                // the overflow bin has no right neighbour; it is as wide as the other bins
+                float_type upper = it + 1 != histogram.end() ? (it + 1)->first : it->first + (it->first - (it - 1)->first);
+                this->median = it->first * over + upper * ( 1. - over );
             }
 
             return this->median;
-- 
2.43.0


From 1bee80cf14e2c253a6851fb131694c4661a1e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:52 +0000
Subject: [PATCH 17/32] fix: interpolate the distribution-based median inside
 the cell that contains one half

---
 include/boost/accumulators/statistics/median.hpp   | 14 +++++++++++---
 .../accumulators/statistics/weighted_median.hpp    | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 4e5c328..b16e058 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -167,12 +167,20 @@ namespace impl
 
                 range_type histogram = p_square_cumulative_distribution(args);
                 typename range_type::iterator it = histogram.begin();
-                while (it->second < 0.5)
+                while (it + 1 != histogram.end() && it->second < 0.5)
                 {
                     ++it;
                 }
-                float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                if (it == histogram.begin())
+                {
+                    // at least half of the distribution lies at the first marker
+                    this->median = it->first;
+                }
+                else
+                {
+                    float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
+                    this->median = (it - 1)->first * over + it->first * ( 1. - over );
+                }
             }
 
             return this->median;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 863a21d..dce0466 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -165,12 +165,20 @@ namespace impl
 
                 range_type histogram = weighted_p_square_cumulative_distribution(args);
                 typename range_type::iterator it = histogram.begin();
-                while (it->second < 0.5)
+                while (it + 1 != histogram.end() && it->second < 0.5)
                 {
                     ++it;
                 }
-                float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                if (it == histogram.begin())
+                {
+                    // at least half of the distribution lies at the first marker
+                    this->median = it->first;
+                }
+                else
+                {
+                    float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
+                    this->median = (it - 1)->first * over + it->first * ( 1. - over );
+                }
             }
 
             return this->median;
-- 
2.43.0


From 48eb5899913d48292e81751c5bd9eee4549afe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:25 +0000
Subject: [PATCH 18/32] fix: extracting a peaks-over-threshold fit no longer
 destroys its running sums

---
 .../statistics/peaks_over_threshold.hpp          | 14 +++++++-------
 .../statistics/weighted_peaks_over_threshold.hpp | 16 ++++++++--------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index de73c65..b47a3a5 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -164,15 +164,15 @@ namespace impl
 
                 std::size_t cnt = count(args);
 
-                this->mu_ = sign::value * numeric::fdiv(this->mu_, this->Nu_);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, this->Nu_);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                float_type mu = sign::value * numeric::fdiv(this->mu_, this->Nu_);
+                float_type sigma2 = numeric::fdiv(this->sigma2_, this->Nu_);
+                sigma2 -= mu * mu;
 
                 float_type threshold_probability = numeric::fdiv(cnt - this->Nu_, cnt);
 
-                float_type tmp = numeric::fdiv(( this->mu_ - this->threshold_ )*( this->mu_ - this->threshold_ ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - this->threshold_ )*( mu - this->threshold_ ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - this->threshold_ ) * ( 1. + tmp );
+                float_type beta_hat = 0.5 * ( mu - this->threshold_ ) * ( 1. + tmp );
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = this->threshold_ - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
@@ -198,8 +198,8 @@ namespace impl
 
     private:
         std::size_t Nu_;                     // number of samples larger than threshold
-        mutable float_type mu_;              // mean of Nu_ largest samples
-        mutable float_type sigma2_;          // variance of Nu_ largest samples
+        float_type mu_;                      // sum of Nu_ largest samples
+        float_type sigma2_;                  // sum of squares of Nu_ largest samples
         float_type threshold_;
         mutable result_type fit_parameters_; // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index f3dc327..7ba2c95 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -92,15 +92,15 @@ namespace impl
             {
                 this->is_dirty_ = false;
 
-                this->mu_ = this->sign_ * numeric::fdiv(this->mu_, this->w_sum_);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, this->w_sum_);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                float_type mu = this->sign_ * numeric::fdiv(this->mu_, this->w_sum_);
+                float_type sigma2 = numeric::fdiv(this->sigma2_, this->w_sum_);
+                sigma2 -= mu * mu;
 
                 float_type threshold_probability = numeric::fdiv(sum_of_weights(args) - this->w_sum_, sum_of_weights(args));
 
-                float_type tmp = numeric::fdiv(( this->mu_ - this->threshold_ )*( this->mu_ - this->threshold_ ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - this->threshold_ )*( mu - this->threshold_ ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - this->threshold_ ) * ( 1. + tmp );
+                float_type beta_hat = 0.5 * ( mu - this->threshold_ ) * ( 1. + tmp );
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = this->threshold_ - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
@@ -124,9 +124,9 @@ namespace impl
 
     private:
         short sign_;                         // for left tail fitting, mirror the extreme values
-        mutable float_type mu_;              // mean of samples above threshold
-        mutable float_type sigma2_;          // variance of samples above threshold
-        mutable float_type w_sum_;           // sum of weights of samples above threshold
+        float_type mu_;                      // weighted sum of samples above threshold
+        float_type sigma2_;                  // weighted sum of squares of samples above threshold
+        float_type w_sum_;                   // sum of weights of samples above threshold
         float_type threshold_;
         mutable result_type fit_parameters_; // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
-- 
2.43.0


From 0ad45da3981adce9a93bed22a3fdf3a063ed2d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:25 +0000
Subject: [PATCH 19/32] fix: every extraction of a peaks-over-threshold fit by
 probability starts from scratch

---
 .../statistics/peaks_over_threshold.hpp       | 31 +++++++++++--------
 .../weighted_peaks_over_threshold.hpp         | 30 ++++++++++--------
 2 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index b47a3a5..f41d982 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -281,24 +281,29 @@ namespace impl
                     float_type u = *(tail(args).begin() + n - 1) * sign::value;
 
                     // compute mean and variance of samples above/under threshold value u
+                    float_type mu = this->mu_;
+                    float_type sigma2 = this->sigma2_;
+
                     for (std::size_t i = 0; i < n; ++i)
                     {
-                        mu_ += *(tail(args).begin() + i);
-                        sigma2_ += *(tail(args).begin() + i) * (*(tail(args).begin() + i));
+                        mu += *(tail(args).begin() + i);
+                        sigma2 += *(tail(args).begin() + i) * (*(tail(args).begin() + i));
                     }
 
-                    this->mu_ = sign::value * numeric::fdiv(this->mu_, n);
-                    this->sigma2_ = numeric::fdiv(this->sigma2_, n);
-                    this->sigma2_ -= this->mu_ * this->mu_;
+                    mu = sign::value * numeric::fdiv(mu, n);
+                    sigma2 = numeric::fdiv(sigma2, n);
+                    sigma2 -= mu * mu;
+
+                    float_type threshold_probability = this->threshold_probability_;
 
                     if (is_same<LeftRight, left>::value)
-                        this->threshold_probability_ = 1. - this->threshold_probability_;
+                        threshold_probability = 1. - threshold_probability;
 
-                    float_type tmp = numeric::fdiv(( this->mu_ - u )*( this->mu_ - u ), this->sigma2_);
+                    float_type tmp = numeric::fdiv(( mu - u )*( mu - u ), sigma2);
                     float_type xi_hat = 0.5 * ( 1. - tmp );
-                    float_type beta_hat = 0.5 * ( this->mu_ - u ) * ( 1. + tmp );
-                    float_type beta_bar = beta_hat * std::pow(1. - threshold_probability_, xi_hat);
-                    float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability_, -xi_hat) - 1.)/xi_hat;
+                    float_type beta_hat = 0.5 * ( mu - u ) * ( 1. + tmp );
+                    float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
+                    float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                     this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
                 }
             }
@@ -321,9 +326,9 @@ namespace impl
         }
 
     private:
-        mutable float_type mu_;                     // mean of samples above threshold u
-        mutable float_type sigma2_;                 // variance of samples above threshold u
-        mutable float_type threshold_probability_;
+        float_type mu_;                             // initial value of the sum of samples above threshold u
+        float_type sigma2_;                         // initial value of the sum of squares of samples above threshold u
+        float_type threshold_probability_;
         mutable result_type fit_parameters_;        // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
     };
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 7ba2c95..47f166a 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -180,13 +180,15 @@ namespace impl
 
                 std::size_t n = 0;
                 Weight sum = Weight(0);
+                float_type mu = this->mu_;
+                float_type sigma2 = this->sigma2_;
 
                 while (sum < threshold)
                 {
                     if (n < static_cast<std::size_t>(tail_weights(args).size()))
                     {
-                        mu_ += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n);
-                        sigma2_ += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n) * (*(tail(args).begin() + n));
+                        mu += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n);
+                        sigma2 += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n) * (*(tail(args).begin() + n));
                         sum += *(tail_weights(args).begin() + n);
                         n++;
                     }
@@ -213,18 +215,20 @@ namespace impl
                 float_type u = *(tail(args).begin() + n - 1) * this->sign_;
 
 
-                this->mu_ = this->sign_ * numeric::fdiv(this->mu_, sum);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, sum);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                mu = this->sign_ * numeric::fdiv(mu, sum);
+                sigma2 = numeric::fdiv(sigma2, sum);
+                sigma2 -= mu * mu;
+
+                float_type threshold_probability = this->threshold_probability_;
 
                 if (is_same<LeftRight, left>::value)
-                    this->threshold_probability_ = 1. - this->threshold_probability_;
+                    threshold_probability = 1. - threshold_probability;
 
-                float_type tmp = numeric::fdiv(( this->mu_ - u )*( this->mu_ - u ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - u )*( mu - u ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - u ) * ( 1. + tmp );
-                float_type beta_bar = beta_hat * std::pow(1. - threshold_probability_, xi_hat);
-                float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability_, -xi_hat) - 1.)/xi_hat;
+                float_type beta_hat = 0.5 * ( mu - u ) * ( 1. + tmp );
+                float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
+                float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
 
             }
@@ -234,9 +238,9 @@ namespace impl
 
     private:
         short sign_;                                // for left tail fitting, mirror the extreme values
-        mutable float_type mu_;                     // mean of samples above threshold u
-        mutable float_type sigma2_;                 // variance of samples above threshold u
-        mutable float_type threshold_probability_;
+        float_type mu_;                             // initial value of the sum of samples above threshold u
+        float_type sigma2_;                         // initial value of the sum of squares of samples above threshold u
+        float_type threshold_probability_;
         mutable result_type fit_parameters_;        // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
     };
-- 
2.43.0


From 0b2fc6e4d76b3a1b150937c921c666a454f755df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:25 +0000
Subject: [PATCH 20/32] fix: a peaks-over-threshold fit the cache cannot answer
 stays NaN when extracted again

---
 .../boost/accumulators/statistics/peaks_over_threshold.hpp    | 3 +--
 .../accumulators/statistics/weighted_peaks_over_threshold.hpp | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index f41d982..6dd3f18 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -246,8 +246,6 @@ namespace impl
         {
             if (this->is_dirty_)
             {
-                this->is_dirty_ = false;
-
                 std::size_t cnt = count(args);
 
                 // the n'th cached sample provides an approximate threshold value u
@@ -305,6 +303,7 @@ namespace impl
                     float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                     float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                     this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
+                    this->is_dirty_ = false;
                 }
             }
 
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 47f166a..897e3fc 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -173,8 +173,6 @@ namespace impl
         {
             if (this->is_dirty_)
             {
-                this->is_dirty_ = false;
-
                 float_type threshold = sum_of_weights(args)
                              * ( ( is_same<LeftRight, left>::value ) ? this->threshold_probability_ : 1. - this->threshold_probability_ );
 
@@ -230,7 +228,7 @@ namespace impl
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
-
+                this->is_dirty_ = false;
             }
 
             return this->fit_parameters_;
-- 
2.43.0


From 18e2f7941f509c8d67cbfc8e7e900fbf100a3776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:25 +0000
Subject: [PATCH 21/32] fix: a peaks-over-threshold fit of an empty tail no
 longer reads before the first cached sample

---
 .../statistics/peaks_over_threshold.hpp       |  4 ++--
 .../weighted_peaks_over_threshold.hpp         | 19 ++++++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index 6dd3f18..ebbd986 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -256,7 +256,7 @@ namespace impl
                 );
 
                 // If n is in a valid range, return result, otherwise return NaN or throw exception
-                if ( n >= static_cast<std::size_t>(tail(args).size()))
+                if ( n == 0 || n >= static_cast<std::size_t>(tail(args).size()))
                 {
                     if (std::numeric_limits<float_type>::has_quiet_NaN)
                     {
@@ -269,7 +269,7 @@ namespace impl
                     else
                     {
                         std::ostringstream msg;
-                        msg << "index n = " << n << " is not in valid range [0, " << tail(args).size() << ")";
+                        msg << "index n = " << n << " is not in valid range [1, " << tail(args).size() << ")";
                         boost::throw_exception(std::runtime_error(msg.str()));
                         return boost::make_tuple(Sample(0), Sample(0), Sample(0));
                     }
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 897e3fc..8eabe43 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -210,8 +210,25 @@ namespace impl
                     }
                 }
 
-                float_type u = *(tail(args).begin() + n - 1) * this->sign_;
+                // No weight is asked for (or there is none): there is nothing to fit
+                if (n == 0)
+                {
+                    if (std::numeric_limits<float_type>::has_quiet_NaN)
+                    {
+                        return boost::make_tuple(
+                            std::numeric_limits<float_type>::quiet_NaN()
+                          , std::numeric_limits<float_type>::quiet_NaN()
+                          , std::numeric_limits<float_type>::quiet_NaN()
+                        );
+                    }
+                    else
+                    {
+                        boost::throw_exception(std::runtime_error("no samples in the requested tail"));
+                        return boost::make_tuple(Sample(0), Sample(0), Sample(0));
+                    }
+                }
 
+                float_type u = *(tail(args).begin() + n - 1) * this->sign_;
 
                 mu = this->sign_ * numeric::fdiv(mu, sum);
                 sigma2 = numeric::fdiv(sigma2, sum);
-- 
2.43.0


From 444ad0ad4108f9949a9f59043224d42e714b2541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:03 +0000
Subject: [PATCH 22/32] fix: which of several equal samples a tail keeps no
 longer depends on earlier extractions

---
 include/boost/accumulators/statistics/tail.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/tail.hpp b/include/boost/accumulators/statistics/tail.hpp
index 40dab37..8f99080 100644
--- a/include/boost/accumulators/statistics/tail.hpp
+++ b/include/boost/accumulators/statistics/tail.hpp
@@ -260,7 +260,10 @@ namespace impl
 
             bool operator ()(std::size_t left, std::size_t right) const
             {
-                return predicate_type()(this->samples[left], this->samples[right]);
+                // Equal samples are ordered by position, so that extracting the tail (which
+                // rearranges the heap) has no influence on which of them is replaced next.
+                return predicate_type()(this->samples[left], this->samples[right])
+                    || ( !predicate_type()(this->samples[right], this->samples[left]) && left < right );
             }
 
         private:
-- 
2.43.0


From 5aa8f5c19398b3f36818e90e66fe974db4458a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:52 +0000
Subject: [PATCH 23/32] fix: order accumulators by the dependencies of the
 features actually selected

---
 .../accumulators/framework/depends_on.hpp     | 53 ++++++++++++++++++-
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/framework/depends_on.hpp b/include/boost/accumulators/framework/depends_on.hpp
index e0036ac..9c92866 100644
--- a/include/boost/accumulators/framework/depends_on.hpp
+++ b/include/boost/accumulators/framework/depends_on.hpp
@@ -9,6 +9,7 @@
 #define BOOST_ACCUMULATORS_FRAMEWORK_DEPENDS_ON_HPP_EAN_28_10_2005
 
 #include <boost/version.hpp>
+#include <boost/mpl/at.hpp>
 #include <boost/mpl/end.hpp>
 #include <boost/mpl/map.hpp>
 #include <boost/mpl/set.hpp>
@@ -17,6 +18,8 @@
 #include <boost/mpl/size.hpp>
 #include <boost/mpl/sort.hpp>
 #include <boost/mpl/insert.hpp>
+#include <boost/mpl/eval_if.hpp>
+#include <boost/mpl/has_key.hpp>
 #include <boost/mpl/assert.hpp>
 #include <boost/mpl/remove.hpp>
 #include <boost/mpl/vector.hpp>
@@ -404,6 +407,52 @@ namespace boost { namespace accumulators
         {
         };
 
+        // Collect the features that a list of features depends on, directly or
+        // indirectly, following the dependencies of those features that were
+        // actually selected to provide them.
+        template<typename FeatureSet, typename FeatureMap, typename Features>
+        struct collect_selected_dependencies;
+
+        template<typename FeatureSet, typename FeatureMap, typename Feature>
+        struct insert_selected_dependencies
+          : mpl::eval_if<
+                mpl::has_key<FeatureSet, typename feature_of<Feature>::type>
+              , mpl::identity<FeatureSet>
+              , collect_selected_dependencies<
+                    typename mpl::insert<FeatureSet, typename feature_of<Feature>::type>::type
+                  , FeatureMap
+                  , typename mpl::at<FeatureMap, typename feature_of<Feature>::type>::type::dependencies
+                >
+            >
+        {
+        };
+
+        template<typename FeatureSet, typename FeatureMap, typename Features>
+        struct collect_selected_dependencies
+          : mpl::fold<
+                Features
+              , FeatureSet
+              , insert_selected_dependencies<mpl::_1, FeatureMap, mpl::_2>
+            >
+        {
+        };
+
+        // A feature that was selected to provide another one need not have the
+        // dependencies of the one it replaces, so is_dependent_on is not enough
+        // to order the features of an accumulator_set.
+        template<typename FeatureMap, typename A, typename B>
+        struct is_selected_dependent_on
+          : mpl::has_key<
+                typename collect_selected_dependencies<
+                    mpl::set0<>
+                  , FeatureMap
+                  , typename A::dependencies
+                >::type
+              , typename feature_of<B>::type
+            >
+        {
+        };
+
         template<typename Features, typename Sample, typename Weight>
         struct make_accumulator_tuple
         {
@@ -437,11 +486,11 @@ namespace boost { namespace accumulators
                 >::type
             feature_vector_with_dependencies;
 
-            // sort the features according to which is derived from which
+            // sort the features according to which depends on which
             typedef
                 typename mpl::sort<
                     feature_vector_with_dependencies
-                  , is_dependent_on<mpl::_2, mpl::_1>
+                  , is_selected_dependent_on<feature_map_with_dependencies, mpl::_2, mpl::_1>
                 >::type
             sorted_feature_vector;
 
-- 
2.43.0


From 4aa2f82ac9d71251e396d5ae949d04a869856eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:07 +0000
Subject: [PATCH 24/32] fix: construct accumulators in place and dependencies
 first, as documented

---
 .../framework/accumulator_set.hpp             | 30 ++++-----
 .../accumulators/framework/depends_on.hpp     | 65 ++++++++++++-------
 2 files changed, 57 insertions(+), 38 deletions(-)

diff --git a/include/boost/accumulators/framework/accumulator_set.hpp b/include/boost/accumulators/framework/accumulator_set.hpp
index e89e5e9..1cefb57 100644
--- a/include/boost/accumulators/framework/accumulator_set.hpp
+++ b/include/boost/accumulators/framework/accumulator_set.hpp
@@ -170,10 +170,10 @@ struct accumulator_set
     /// default-construct all contained accumulators
     accumulator_set()
       : accumulators(
-            detail::make_acc_list(
-                accumulators_mpl_vector()
-              , (boost::accumulators::accumulator = *this)
+            detail::make_args_iterator(
+                (boost::accumulators::accumulator = *this)
             )
+          , mpl::true_()
         )
     {
         // Add-ref the Features that the user has specified
@@ -193,10 +193,10 @@ struct accumulator_set
           , detail::_enabler
         >::type = detail::_enabler()
     ) : accumulators(
-            detail::make_acc_list(
-                accumulators_mpl_vector()
-              , (boost::accumulators::accumulator = *this, a1)
+            detail::make_args_iterator(
+                (boost::accumulators::accumulator = *this, a1)
             )
+          , mpl::true_()
         )
     {
         // Add-ref the Features that the user has specified
@@ -216,13 +216,13 @@ struct accumulator_set
           , detail::_enabler
         >::type = detail::_enabler()
     ) : accumulators(
-            detail::make_acc_list(
-                accumulators_mpl_vector()
-              , (
+            detail::make_args_iterator(
+                (
                     boost::accumulators::accumulator = *this
                   , boost::accumulators::sample = a1
                 )
             )
+          , mpl::true_()
         )
     {
         // Add-ref the Features that the user has specified
@@ -244,13 +244,13 @@ struct accumulator_set
           , detail::_enabler                                                            \
         >::type = detail::_enabler()                                                    \
     ) : accumulators(                                                                   \
-            detail::make_acc_list(                                                      \
-                accumulators_mpl_vector()                                               \
-              , (                                                                       \
+            detail::make_args_iterator(                                                 \
+                (                                                                       \
                     boost::accumulators::accumulator = *this                            \
                     BOOST_PP_ENUM_TRAILING_PARAMS_Z(z, n, a)                            \
                 )                                                                       \
             )                                                                           \
+          , mpl::true_()                                                                \
         )                                                                               \
     {                                                                                   \
         /* Add-ref the Features that the user has specified */                          \
@@ -266,13 +266,13 @@ struct accumulator_set
           , detail::_enabler                                                            \
         >::type = detail::_enabler()                                                    \
     ) : accumulators(                                                                   \
-            detail::make_acc_list(                                                      \
-                accumulators_mpl_vector()                                               \
-              , (                                                                       \
+            detail::make_args_iterator(                                                 \
+                (                                                                       \
                     boost::accumulators::accumulator = *this                            \
                   , boost::accumulators::sample = BOOST_PP_ENUM_PARAMS_Z(z, n, a)       \
                 )                                                                       \
             )                                                                           \
+          , mpl::true_()                                                                \
         )                                                                               \
     {                                                                                   \
         /* Add-ref the Features that the user has specified */                          \
diff --git a/include/boost/accumulators/framework/depends_on.hpp b/include/boost/accumulators/framework/depends_on.hpp
index 9c92866..8478d20 100644
--- a/include/boost/accumulators/framework/depends_on.hpp
+++ b/include/boost/accumulators/framework/depends_on.hpp
@@ -46,6 +46,7 @@
 #include <boost/fusion/include/end.hpp>
 #include <boost/fusion/include/begin.hpp>
 #include <boost/fusion/include/cons.hpp>
+#include <boost/fusion/include/iterator_facade.hpp>
 
 namespace boost { namespace accumulators
 {
@@ -227,13 +228,6 @@ namespace boost { namespace accumulators
         struct build_acc_list<First, Last, true>
         {
             typedef fusion::nil_ type;
-
-            template<typename Args>
-            static fusion::nil_
-            call(Args const &, First const&, Last const&)
-            {
-                return fusion::nil_();
-            }
         };
 
         template<typename First, typename Last>
@@ -247,13 +241,6 @@ namespace boost { namespace accumulators
                 typename fusion::result_of::value_of<First>::type
               , typename next_build_acc_list::type>
             type;
-
-            template<typename Args>
-            static type
-            call(Args const &args, First const& f, Last const& l)
-            {
-                return type(args, next_build_acc_list::call(args, fusion::next(f), l));
-            }
         };
 
         namespace meta
@@ -267,18 +254,50 @@ namespace boost { namespace accumulators
             {};
         }
 
-        template<typename Sequence, typename Args>
-        typename meta::make_acc_list<Sequence>::type
-        make_acc_list(Sequence &seq, Args const &args)
+        ///////////////////////////////////////////////////////////////////////////
+        // args_iterator
+        //   A fusion iterator that yields the same argument pack over and over. An
+        //   acc_list built from it constructs its accumulators in place and in
+        //   order, so that an accumulator can access the ones it depends on from
+        //   within its constructor.
+        template<typename Args>
+        struct args_iterator
+          : fusion::iterator_facade<args_iterator<Args>, fusion::forward_traversal_tag>
         {
-            return meta::make_acc_list<Sequence>::call(args, fusion::begin(seq), fusion::end(seq));
-        }
+            explicit args_iterator(Args const &args)
+              : args_(args)
+            {
+            }
+
+            template<typename Iterator>
+            struct deref
+            {
+                typedef Args const &type;
+
+                static type call(Iterator const &it)
+                {
+                    return it.args_;
+                }
+            };
+
+            template<typename Iterator>
+            struct next
+            {
+                typedef Iterator type;
+
+                static type call(Iterator const &it)
+                {
+                    return it;
+                }
+            };
+
+            Args const &args_;
+        };
 
-        template<typename Sequence, typename Args>
-        typename meta::make_acc_list<Sequence>::type
-        make_acc_list(Sequence const &seq, Args const &args)
+        template<typename Args>
+        args_iterator<Args> make_args_iterator(Args const &args)
         {
-            return meta::make_acc_list<Sequence const>::call(args, fusion::begin(seq), fusion::end(seq));
+            return args_iterator<Args>(args);
         }
 
         ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 423d01328306c17a37580db3dd21868e173fee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:52 +0000
Subject: [PATCH 25/32] fix: dropping a feature releases the dependencies of
 the accumulator that provides it

---
 include/boost/accumulators/framework/accumulator_set.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/accumulators/framework/accumulator_set.hpp b/include/boost/accumulators/framework/accumulator_set.hpp
index 1cefb57..4c5c530 100644
--- a/include/boost/accumulators/framework/accumulator_set.hpp
+++ b/include/boost/accumulators/framework/accumulator_set.hpp
@@ -430,15 +430,11 @@ struct accumulator_set
         typedef typename apply<Feature>::type the_accumulator;
         BOOST_MPL_ASSERT((detail::contains_feature_of<Features, the_accumulator>));
 
-        typedef
-            typename feature_of<typename as_feature<Feature>::type>::type
-        the_feature;
-
         (*fusion::find_if<detail::matches_feature<Feature> >(this->accumulators))
             .drop(boost::accumulators::accumulator = *this);
 
         // Also drop accumulators that this feature depends on
-        typedef typename the_feature::dependencies dependencies;
+        typedef typename the_accumulator::feature_tag::dependencies dependencies;
         this->template visit_if<detail::contains_feature_of_<dependencies> >(
             detail::make_drop_visitor(boost::accumulators::accumulator = *this)
         );
-- 
2.43.0


From fae30cf2e1557f3ccb0574c689bda127b7bf879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:14 +0000
Subject: [PATCH 26/32] fix: let every stateless accumulator be serialized

error_of<mean>, lazy weighted mean and variance, weighted skewness, kurtosis
and median, and the weighted tail statistics had no serialize member, so that
sets containing them (and the serializable statistics that depend on them,
e.g. weighted_covariance) could not be saved.
---
 include/boost/accumulators/statistics/error_of_mean.hpp       | 4 ++++
 include/boost/accumulators/statistics/weighted_kurtosis.hpp   | 4 ++++
 include/boost/accumulators/statistics/weighted_mean.hpp       | 4 ++++
 include/boost/accumulators/statistics/weighted_median.hpp     | 4 ++++
 include/boost/accumulators/statistics/weighted_skewness.hpp   | 4 ++++
 include/boost/accumulators/statistics/weighted_tail_mean.hpp  | 4 ++++
 .../boost/accumulators/statistics/weighted_tail_quantile.hpp  | 4 ++++
 include/boost/accumulators/statistics/weighted_variance.hpp   | 4 ++++
 8 files changed, 32 insertions(+)

diff --git a/include/boost/accumulators/statistics/error_of_mean.hpp b/include/boost/accumulators/statistics/error_of_mean.hpp
index 7cd923d..9548d39 100644
--- a/include/boost/accumulators/statistics/error_of_mean.hpp
+++ b/include/boost/accumulators/statistics/error_of_mean.hpp
@@ -40,6 +40,10 @@ namespace impl
             extractor<Variance> const variance = {};
             return sqrt(numeric::fdiv(variance(args), count(args) - 1));
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_kurtosis.hpp b/include/boost/accumulators/statistics/weighted_kurtosis.hpp
index 3fd4ed7..bb2c8ee 100644
--- a/include/boost/accumulators/statistics/weighted_kurtosis.hpp
+++ b/include/boost/accumulators/statistics/weighted_kurtosis.hpp
@@ -70,6 +70,10 @@ namespace impl
                         * ( accumulators::weighted_moment<2>(args) - weighted_mean(args) * weighted_mean(args) )
                    ) - 3.;
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_mean.hpp b/include/boost/accumulators/statistics/weighted_mean.hpp
index 3214af6..5acb4c7 100644
--- a/include/boost/accumulators/statistics/weighted_mean.hpp
+++ b/include/boost/accumulators/statistics/weighted_mean.hpp
@@ -55,6 +55,10 @@ namespace impl
 
             return numeric::fdiv(some_weighted_sum(args), sum_of_weights(args));
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
     ///////////////////////////////////////////////////////////////////////////////
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index dce0466..6dfc33f 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -49,6 +49,10 @@ namespace impl
         {
             return weighted_p_square_quantile_for_median(args);
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
     ///////////////////////////////////////////////////////////////////////////////
diff --git a/include/boost/accumulators/statistics/weighted_skewness.hpp b/include/boost/accumulators/statistics/weighted_skewness.hpp
index a3ac387..511adc1 100644
--- a/include/boost/accumulators/statistics/weighted_skewness.hpp
+++ b/include/boost/accumulators/statistics/weighted_skewness.hpp
@@ -66,6 +66,10 @@ namespace impl
                       * std::sqrt( accumulators::weighted_moment<2>(args) - weighted_mean(args) * weighted_mean(args) )
                    );
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_tail_mean.hpp b/include/boost/accumulators/statistics/weighted_tail_mean.hpp
index bae8530..f5b5d6c 100644
--- a/include/boost/accumulators/statistics/weighted_tail_mean.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_mean.hpp
@@ -130,6 +130,10 @@ namespace impl
               , sum
             );
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
index 0b358ec..56b3b8a 100644
--- a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
@@ -122,6 +122,10 @@ namespace impl
             // whereas the samples of the right tail are sorted in descending order
             return *(boost::begin(tail(args)) + n - 1);
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 } // namespace impl
 
diff --git a/include/boost/accumulators/statistics/weighted_variance.hpp b/include/boost/accumulators/statistics/weighted_variance.hpp
index f7d2b6e..6d519e8 100644
--- a/include/boost/accumulators/statistics/weighted_variance.hpp
+++ b/include/boost/accumulators/statistics/weighted_variance.hpp
@@ -52,6 +52,10 @@ namespace impl
             result_type tmp = some_mean(args);
             return accumulators::weighted_moment<2>(args) - tmp * tmp;
         }
+
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
     //! Iterative calculation of variance of weighted samples.
-- 
2.43.0


From 3faaa5f0f8cd4f40da479eb5ce4f2159e3708733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:14 +0000
Subject: [PATCH 27/32] fix: save the whole state of
 weighted_peaks_over_threshold

Its serialize member left out the sum of weights above the threshold and did
not compile (a boost::tuple is not serializable); the variant with a threshold
probability had none.
---
 .../weighted_peaks_over_threshold.hpp         | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 8eabe43..19667d4 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -117,8 +117,11 @@ namespace impl
             ar & sign_;
             ar & mu_;
             ar & sigma2_;
+            ar & w_sum_;
             ar & threshold_;
-            ar & fit_parameters_;
+            ar & get<0>(fit_parameters_);
+            ar & get<1>(fit_parameters_);
+            ar & get<2>(fit_parameters_);
             ar & is_dirty_;
         }
 
@@ -251,6 +254,21 @@ namespace impl
             return this->fit_parameters_;
         }
 
+        // make this accumulator serializeable
+        // TODO: do we need to split to load/save and verify that threshold did not change?
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        {
+            ar & sign_;
+            ar & mu_;
+            ar & sigma2_;
+            ar & threshold_probability_;
+            ar & get<0>(fit_parameters_);
+            ar & get<1>(fit_parameters_);
+            ar & get<2>(fit_parameters_);
+            ar & is_dirty_;
+        }
+
     private:
         short sign_;                                // for left tail fitting, mirror the extreme values
         float_type mu_;                             // initial value of the sum of samples above threshold u
-- 
2.43.0


From 400301de403deed1f9f860ef7cd98716114be0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:14 +0000
Subject: [PATCH 28/32] fix: tail_variate::serialize is public

The member was private, so no set with a tail_variate, and none of the
statistics computed from one, could be saved.
---
 include/boost/accumulators/statistics/tail_variate.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/accumulators/statistics/tail_variate.hpp b/include/boost/accumulators/statistics/tail_variate.hpp
index 6885ece..b09aca9 100644
--- a/include/boost/accumulators/statistics/tail_variate.hpp
+++ b/include/boost/accumulators/statistics/tail_variate.hpp
@@ -70,6 +70,7 @@ namespace impl
             );
         }
 
+    public:
         // make this accumulator serializeable
         template<class Archive>
         void serialize(Archive & ar, const unsigned int file_version)
-- 
2.43.0


From 7a48b36f83d677ee5a3a04c728faf833516f3db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:56 +0000
Subject: [PATCH 29/32] fix: save a rolling window element by element

A wrapped window was saved as two binary chunks but loaded as one, which a text
archive cannot undo, elements of class type were saved as raw bytes, and loading
allocated sizeof(T) times the elements needed.
---
 .../accumulators/statistics/rolling_window.hpp  | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index 0624ccc..7f06810 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -32,10 +32,8 @@ void save(Archive& ar, const circular_buffer<T>& b, const unsigned int /* versio
     typename circular_buffer<T>::size_type size = b.size();
     ar << b.capacity();
     ar << size;
-    const typename circular_buffer<T>::const_array_range one = b.array_one();
-    const typename circular_buffer<T>::const_array_range two = b.array_two();
-    ar.save_binary(one.first, one.second*sizeof(T));
-    ar.save_binary(two.first, two.second*sizeof(T));
+    for (typename circular_buffer<T>::const_iterator it = b.begin(); it != b.end(); ++it)
+        ar << *it;
 }
 
 template <class Archive, class T>
@@ -47,10 +45,13 @@ void load(Archive& ar, circular_buffer<T>& b, const unsigned int /* version */)
     b.set_capacity(capacity);
     ar >> size;
     b.clear();
-    const typename circular_buffer<T>::pointer buff = new T[size*sizeof(T)];
-    ar.load_binary(buff, size*sizeof(T));
-    b.insert(b.begin(), buff, buff+size);
-    delete[] buff;
+    for (; size != 0; --size)
+    {
+        T t;
+        ar >> t;
+        b.push_back(t);
+        ar.reset_object_address(&b.back(), &t);
+    }
 }
 
 template<class Archive, class T>
-- 
2.43.0


From 9ac450c081d081994340000ff42391354027de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:08 +0000
Subject: [PATCH 30/32] fix: initialise the cached value of the histogram
 medians

Saving a set before its first extraction wrote an indeterminate value, which a
text archive may not even be able to read back.
---
 include/boost/accumulators/statistics/median.hpp          | 2 ++
 include/boost/accumulators/statistics/weighted_median.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index b16e058..226d2fa 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -77,6 +77,7 @@ namespace impl
         with_density_median_impl(Args const &args)
           : sum(numeric::fdiv(args[sample | Sample()], (std::size_t)1))
           , is_dirty(true)
+          , median()
         {
         }
 
@@ -150,6 +151,7 @@ namespace impl
 
         with_p_square_cumulative_distribution_median_impl(dont_care)
           : is_dirty(true)
+          , median()
         {
         }
 
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 6dfc33f..ba88ff1 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -80,6 +80,7 @@ namespace impl
         with_density_weighted_median_impl(Args const &args)
           : sum(numeric::fdiv(args[sample | Sample()], (std::size_t)1))
           , is_dirty(true)
+          , median()
         {
         }
 
@@ -152,6 +153,7 @@ namespace impl
 
         with_p_square_cumulative_distribution_weighted_median_impl(dont_care)
           : is_dirty(true)
+          , median()
         {
         }
 
-- 
2.43.0


From 65b5014f0903da9c5016691bb4f6424eaa202bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:46 +0000
Subject: [PATCH 31/32] fix: save whether a droppable accumulator has been
 dropped

The reference count was not part of the archive, so that a dropped accumulator
came back to life in the loaded set (and the result cached at the drop was lost).
---
 .../accumulators/droppable_accumulator.hpp    | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp b/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
index 21fdb51..bd4d311 100644
--- a/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
+++ b/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
@@ -157,6 +157,14 @@ namespace boost { namespace accumulators
             return 0 == this->ref_count_;
         }
 
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        {
+            this->Accumulator::serialize(ar, file_version);
+            ar & this->ref_count_;
+        }
+
     private:
         int ref_count_;
     };
@@ -231,6 +239,29 @@ namespace boost { namespace accumulators
             return this->has_result() ? this->get() : this->Accumulator::result(args);
         }
 
+        // make this accumulator serializeable; called before
+        // droppable_accumulator_base saves or loads whether it is dropped
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        {
+            this->Accumulator::serialize(ar, file_version);
+            bool cached = this->has_result();
+            result_type r = cached ? this->get() : result_type();
+            if(cached && Archive::is_loading::value)
+            {
+                this->get().~result_type();
+            }
+            ar & cached;
+            if(cached)
+            {
+                ar & r;
+                if(Archive::is_loading::value)
+                {
+                    this->set(r);
+                }
+            }
+        }
+
     private:
         BOOST_DELETED_FUNCTION(with_cached_result &operator =(with_cached_result const &))
 
-- 
2.43.0


From 747b806a35e8e11446b8b0cc1dd0d0468874b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:26 +0000
Subject: [PATCH 32/32] fix: the multiplicative identity of std::complex is 1,
 not 1+i

---
 include/boost/accumulators/numeric/functional/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/numeric/functional/complex.hpp b/include/boost/accumulators/numeric/functional/complex.hpp
index ea8c033..9d32482 100644
--- a/include/boost/accumulators/numeric/functional/complex.hpp
+++ b/include/boost/accumulators/numeric/functional/complex.hpp
@@ -60,7 +60,7 @@ namespace boost { namespace numeric
 
         template<typename T>
         std::complex<T> const one_complex<T>::value
-          = std::complex<T>(numeric::one<T>::value, numeric::one<T>::value);
+          = std::complex<T>(numeric::one<T>::value);
     }
 
     /// INTERNAL ONLY
-- 
2.43.0

