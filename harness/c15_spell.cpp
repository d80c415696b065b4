// C15: every spelling of an extraction gives the same value; features listed
// twice, through features<> or through an alias change nothing.
#include <boost/accumulators/numeric/functional/vector.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/weighted_sum_kahan.hpp>
#include <boost/utility/result_of.hpp>
#include "anyset.hpp"
using namespace vf; using namespace boost::accumulators; namespace ba = boost::accumulators;
// the feature F reported through every generic way of asking, against v
template<class F, class S> static void ways(char const *n, S const &s, double v, std::string const &w)
{
    typedef extractor<F> E; E const e = {};
    check_true(std::string(n) + ":spelling", same((double)e(s), v), std::string(n) + " by extractor " + str((double)e(s)) + " not " + str(v) + w);
    typedef typename as_feature<F>::type FT;
    check_true(std::string(n) + ":spelling", same((double)extract_result<FT>(s), v), std::string(n) + " by extract_result " + str((double)extract_result<FT>(s)) + " not " + str(v) + w);
    check_true(std::string(n) + ":spelling", same((double)find_accumulator<FT>(s).result((ba::accumulator = s, ba::sample = 0)), v), std::string(n) + " by find_accumulator" + w);
    check_true(std::string(n) + ":spelling", same((double)e((ba::accumulator = s)), v), std::string(n) + " by argument pack" + w);
    typename boost::result_of<E(S)>::type rr = e(s); check_true(std::string(n) + ":spelling", same((double)rr, v), std::string(n) + " through result_of" + w);
}
template<class F, class S, class A> static void ways1(char const *n, S const &s, A const &a, double v, std::string const &w)
{
    extractor<F> const e = {}; typedef typename as_feature<F>::type FT;
    check_true(std::string(n) + ":spelling", same((double)e(s, a), v), std::string(n) + " by extractor with an argument " + str((double)e(s, a)) + " not " + str(v) + w);
    check_true(std::string(n) + ":spelling", same((double)extract_result<FT>(s, a), v), std::string(n) + " by extract_result with an argument" + w);
    // further arguments nobody asks for change nothing, in either order
    check_true(std::string(n) + ":spelling", same((double)extract_result<FT>(s, a, ba::covariate1 = .11), v), std::string(n) + " with another argument after" + w);
    check_true(std::string(n) + ":spelling", same((double)e(s, ba::covariate1 = .11, a), v), std::string(n) + " with another argument before" + w);
}
#define Q(F, V) ways<F>(#F, s, (V), w)
#define QX(F, N) Q(F, (double)extract::N(s)); Q(F, (double)ba::N(s))
#define FIG "x=" + str_seq(t.x, 8)
// the statistics spelled every way: plain, alias, modifier, unweighted name of a weighted set
SCENARIO(spell_plain, 120)
{
    std::size_t n = gen_len(r, 300); any::Stream t = any::make_stream(r, n); std::string w = " " FIG;
    accumulator_set<double, stats<tag::variance(lazy), tag::kurtosis, tag::mean, tag::min, tag::max, tag::count, tag::sum, tag::moment<2>, tag::skewness, tag::median, tag::error_of<tag::mean> > > s;
    accumulator_set<double, stats<tag::variance, tag::mean(immediate), tag::error_of<tag::mean(immediate)> > > si;
    accumulator_set<double, stats<with_error<tag::mean(lazy)> > > sl; accumulator_set<double, stats<tag::min, with_error<tag::mean(immediate)> > > sm;   // errors asked for through with_error
    accumulator_set<double, features<tag::count, tag::mean, tag::variance(immediate), tag::mean, tag::count, tag::variance> > sd;       // listed twice, through features<>
    for (std::size_t i = 0; i < n; ++i) { s(t.x[i]); si(t.x[i]); sd(t.x[i]); sl(t.x[i]); sm(t.x[i]); }
    QX(tag::count, count); QX(tag::sum, sum);
    if (n >= 2)
    {
        QX(tag::mean, mean); Q(tag::mean(lazy), mean(s)); QX(tag::skewness, skewness); QX(tag::kurtosis, kurtosis); QX(tag::lazy_variance, lazy_variance); Q(tag::variance(lazy), lazy_variance(s)); Q(tag::variance, lazy_variance(s));
        Q(tag::min, (extract::min)(s)); Q(tag::max, (extract::max)(s)); Q(tag::moment<2>, extract::moment<2>(s)); Q(tag::moment<2>, ba::moment<2>(s)); Q(tag::error_of<tag::mean>, error_of<tag::mean>(s)); Q(tag::error_of<tag::mean(lazy)>, error_of<tag::mean>(s));
        {
            auto &s = si; Q(tag::mean, mean(si)); Q(tag::immediate_mean, mean(si)); Q(tag::mean(immediate), mean(si)); Q(tag::variance, variance(si)); Q(tag::variance(immediate), variance(si));
            Q(tag::error_of<tag::immediate_mean>, error_of<tag::immediate_mean>(si)); Q(tag::error_of<tag::mean(immediate)>, error_of<tag::immediate_mean>(si));
        }
        { double e = error_of<tag::mean>(s), m = mean(s); auto &s = sl; Q(tag::error_of<tag::mean>, e); Q(tag::error_of<tag::mean(lazy)>, e); Q(tag::mean, m); }
        { double ei = error_of<tag::mean(immediate)>(si), mi = mean(si), mn = (ba::min)(s); auto &s = sm; Q(tag::error_of<tag::mean(immediate)>, ei); Q(tag::error_of<tag::immediate_mean>, ei); Q(tag::mean, mi); Q(tag::min, mn); }
        { auto &s = sd; Q(tag::count, (double)n); Q(tag::variance, variance(sd)); check_near("features<> and duplicates", variance(sd), variance(si), 1e-12 + 1e-9 * std::fabs(variance(si)), w); }
    }
    if (n >= 5) QX(tag::median, median);
    sig_stream(t.x); nontrivial(n >= 2); show("plain statistics by 6 spellings" + w);
}
SCENARIO(spell_weighted, 120)
{
    std::size_t n = 1 + gen_len(r, 300); any::Stream t = any::make_stream(r, n); std::string w = " " FIG + " w=" + str_seq(t.w, 8);
    accumulator_set<double, stats<tag::variance(lazy), tag::kurtosis, tag::mean, tag::min, tag::sum, tag::moment<2>, tag::skewness, tag::median, tag::sum_of_weights, tag::mean_of_weights>, double> s;
    accumulator_set<double, stats<tag::weighted_mean, tag::lazy_weighted_variance, tag::weighted_sum, tag::weighted_moment<2>, tag::weighted_skewness>, double> s2;      // asked for by their own names
    accumulator_set<double, stats<tag::mean(immediate), tag::variance(immediate)>, double> si;
    for (std::size_t i = 0; i < n; ++i) { s(t.x[i], weight = t.w[i]); s2(t.x[i], weight = t.w[i]); si(t.x[i], weight = t.w[i]); }
    QX(tag::sum, weighted_sum); Q(tag::weighted_sum, sum(s)); QX(tag::mean, weighted_mean); Q(tag::weighted_mean, mean(s)); Q(tag::mean(lazy), mean(s)); QX(tag::lazy_variance, lazy_weighted_variance); Q(tag::variance, lazy_weighted_variance(s)); Q(tag::lazy_weighted_variance, variance(s));
    Q(tag::moment<2>, weighted_moment<2>(s)); Q(tag::weighted_moment<2>, ba::moment<2>(s)); Q(tag::skewness, weighted_skewness(s)); Q(tag::weighted_skewness, skewness(s)); Q(tag::kurtosis, weighted_kurtosis(s)); Q(tag::sum_of_weights, sum_of_weights(s));
    Q(tag::mean_of_weights, mean_of_weights(s)); Q(tag::mean_of_weights(lazy), mean_of_weights(s)); if (n >= 5) { Q(tag::median, weighted_median(s)); Q(tag::weighted_median, median(s)); }
    { double a = mean(s), b = variance(s), c = sum(s), d = ba::moment<2>(s), e = skewness(s); auto &s = s2; Q(tag::weighted_mean, a); Q(tag::mean, a); Q(tag::lazy_weighted_variance, b); Q(tag::weighted_sum, c); Q(tag::sum, c); Q(tag::moment<2>, d); Q(tag::skewness, e); }
    { auto &s = si; Q(tag::mean, weighted_mean(s)); Q(tag::immediate_mean, mean(s)); Q(tag::immediate_weighted_mean, mean(s)); Q(tag::variance, weighted_variance(s)); Q(tag::weighted_variance, variance(s)); }
    sig_stream(t.x); nontrivial(n >= 2); show("weighted statistics by 8 spellings" + w);
}
SCENARIO(spell_args, 120)
{
    std::size_t n = 1 + gen_len(r, 300), c = 1 + r.below(n + 4); any::Stream t = any::make_stream(r, n); std::string w = " cache=" + std::to_string(c) + " " FIG; double p = .5 + .499 * r.uni();
    accumulator_set<double, stats<tag::tail_quantile<ba::right>, tag::coherent_tail_mean<ba::right> > > s(right_tail_cache_size = c);
    accumulator_set<double, stats<tag::tail_quantile<ba::left>, tag::non_coherent_tail_mean<ba::left> >, double> sw(left_tail_cache_size = c);
    accumulator_set<double, stats<tag::rolling_mean(lazy), tag::rolling_variance(lazy), tag::rolling_sum, tag::rolling_count> > sr(rolling_window_size = c);
    accumulator_set<double, stats<tag::rolling_mean, tag::rolling_variance> > sri(tag::rolling_window::window_size = c);
    accumulator_set<double, stats<tag::covariance<double, tag::covariate1>, tag::tail_variate<double, tag::covariate1, ba::right> > > sc(right_tail_cache_size = c);
    for (std::size_t i = 0; i < n; ++i) { s(t.x[i]); sw(t.x[i], weight = t.w[i]); sr(t.x[i]); sri(t.x[i]); sc(t.x[i], covariate1 = t.c1[i]); }
#define A(F, V, ARG) ways1<F>(#F, s, ARG, (V), w)
    {
        double q = quantile(s, quantile_probability = p), m = tail_mean(s, quantile_probability = p), k = non_coherent_tail_mean(s, quantile_probability = p);
        A(tag::quantile, q, quantile_probability = p); A(tag::tail_quantile<ba::right>, q, quantile_probability = p); A(tag::tail_mean, m, quantile_probability = p); A(tag::coherent_tail_mean<ba::right>, m, quantile_probability = p);
        A(tag::non_coherent_tail_mean<ba::right>, k, quantile_probability = p); check_true("tail_quantile:spelling", same((double)tail_quantile(s, quantile_probability = p), q), w); check_true("coherent_tail_mean:spelling", same((double)coherent_tail_mean(s, quantile_probability = p), m), w);
    }
    {
        auto &s = sw; double q = quantile(s, quantile_probability = 1 - p), k = non_coherent_weighted_tail_mean(s, quantile_probability = 1 - p);
        A(tag::quantile, q, quantile_probability = 1 - p); A(tag::weighted_tail_quantile<ba::left>, q, quantile_probability = 1 - p); A(tag::tail_quantile<ba::left>, q, quantile_probability = 1 - p); A(tag::non_coherent_tail_mean<ba::left>, k, quantile_probability = 1 - p);
        A(tag::non_coherent_weighted_tail_mean<ba::left>, k, quantile_probability = 1 - p); check_true("weighted_tail_quantile:spelling", same((double)weighted_tail_quantile(s, quantile_probability = 1 - p), q), w);
    }
    { auto &s = sr; QX(tag::rolling_mean, rolling_mean); Q(tag::lazy_rolling_mean, rolling_mean(s)); Q(tag::rolling_mean(lazy), rolling_mean(s)); QX(tag::rolling_sum, rolling_sum); QX(tag::rolling_count, rolling_count); Q(tag::rolling_variance, lazy_rolling_variance(s)); Q(tag::rolling_variance(lazy), rolling_variance(s)); Q(tag::lazy_rolling_variance, rolling_variance(s)); }
    { auto &s = sri; QX(tag::rolling_mean, rolling_mean); Q(tag::immediate_rolling_mean, rolling_mean(s)); Q(tag::rolling_mean(immediate), rolling_mean(s)); Q(tag::rolling_variance, immediate_rolling_variance(s)); Q(tag::rolling_variance(immediate), rolling_variance(s)); }
    { auto &s = sc; typedef tag::covariance<double, tag::covariate1> C; typedef tag::mean_of_variates<double, tag::covariate1> M; Q(C, covariance(s)); Q(tag::abstract_covariance, covariance(s)); Q(M, (mean_of_variates<double, tag::covariate1>(s))); }
    sig_stream(t.x); sig((std::uint64_t)c); nontrivial(n >= 2); show("statistics with arguments and modifiers by 8 spellings" + w);
}
// two selections the library is known to get wrong (known_findings.json): judged on their own
// so that any other wrong answer of the same selections is still reported
SCENARIO(shared_variates, 30)
{
    std::size_t n = 2 + gen_len(r, 300); any::Stream t = any::make_stream(r, n); std::string w = " c1=" + str_seq(t.c1, 6) + " c2=" + str_seq(t.c2, 6);
    typedef tag::mean_of_variates<double, tag::covariate1> M1; typedef tag::mean_of_variates<double, tag::covariate2> M2;
    accumulator_set<double, stats<M1, M2> > s; accumulator_set<double, stats<M1> > s1; accumulator_set<double, stats<M2> > s2;
    accumulator_set<double, stats<M1, M2>, double> q; accumulator_set<double, stats<M1>, double> q1; accumulator_set<double, stats<M2>, double> q2;
    for (std::size_t i = 0; i < n; ++i)
    {
        s(t.x[i], covariate1 = t.c1[i], covariate2 = t.c2[i]); s1(t.x[i], covariate1 = t.c1[i]); s2(t.x[i], covariate2 = t.c2[i]);
        q(t.x[i], weight = t.w[i], covariate1 = t.c1[i], covariate2 = t.c2[i]); q1(t.x[i], weight = t.w[i], covariate1 = t.c1[i]); q2(t.x[i], weight = t.w[i], covariate2 = t.c2[i]);
    }
    auto judge = [&](char const *what, double a, double b, double ra, double rb)
    {
        bool oka = same(a, ra), okb = same(b, rb); observed(); observed();
        if (oka && okb) return;
        bool known = (oka && same(b, ra)) || (okb && same(a, rb));      // one shared sum answers for both
        fail(std::string(what) + (known ? ":one sum for two covariates" : ":in company"), "means " + str(a) + ", " + str(b) + " alone " + str(ra) + ", " + str(rb) + w);
    };
    judge("mean_of_variates", extract_result<M1>(s), extract_result<M2>(s), extract_result<M1>(s1), extract_result<M2>(s2));
    judge("weighted_mean_of_variates", extract_result<M1>(q), extract_result<M2>(q), extract_result<M1>(q1), extract_result<M2>(q2));
    sig_stream(t.c1); sig_stream(t.c2); nontrivial(); show("two covariates" + w);
}
SCENARIO(left_and_right, 30)
{
    std::size_t n = 2 + gen_len(r, 300); any::Stream t = any::make_stream(r, n); std::string w = " " FIG; double p = .6 + .3 * r.uni();
    typedef tag::tail_quantile<ba::left> QL; typedef tag::non_coherent_tail_mean<ba::right> MR;
    accumulator_set<double, stats<QL, MR> > s(left_tail_cache_size = n, right_tail_cache_size = n); accumulator_set<double, stats<QL> > s1(left_tail_cache_size = n); accumulator_set<double, stats<MR> > s2(right_tail_cache_size = n);
    for (std::size_t i = 0; i < n; ++i) { s(t.x[i]); s1(t.x[i]); s2(t.x[i]); }
    double a = quantile(s, quantile_probability = 1 - p), b = non_coherent_tail_mean(s, quantile_probability = p), ra = quantile(s1, quantile_probability = 1 - p), rb = non_coherent_tail_mean(s2, quantile_probability = p);
    // with one tail for both, the other side's statistic is computed over the wrong end
    std::vector<double> v = t.x; std::sort(v.begin(), v.end()); long k = (long)std::ceil(n * (1 - p)); double low = 0, high = 0; for (long i = 0; i < k; ++i) { low += v[i]; high += v[n - 1 - i]; }
    bool oka = same(a, ra), okb = same(b, rb); observed(); observed();
    if (!oka || !okb)
    {
        bool known = (oka && std::fabs(b - low / k) <= 1e-9 * (1 + std::fabs(b))) || (okb && same(a, v[n - k]));
        fail(known ? "tail_quantile<left> with non_coherent_tail_mean<right>:one tail for two sides" : "tail_quantile<left> with non_coherent_tail_mean<right>:in company", "quantile " + str(a) + " tail mean " + str(b) + " alone " + str(ra) + ", " + str(rb) + w);
    }
    (void)high; sig_stream(t.x); nontrivial(); show("left and right" + w);
}
