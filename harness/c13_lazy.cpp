// C13: lazy and immediate variants agree, and either can stand in for the other.
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include "ref.hpp"
using namespace boost::accumulators;
using namespace vf;
typedef tag::mean_of_variates<double, tag::covariate1> MV;
typedef tag::weighted_mean_of_variates<double, tag::covariate1> WMV;

template<class S> static std::vector<S> stream(Rng &r, std::size_t n, int &kind)
{
    kind = (int)r.below(NKINDS); std::vector<double> d = gen(r, n, kind, std::is_integral<S>::value ? 40 : r.chance(.5) ? 1 : std::pow(10.0, (double)r.range(-3, 3)));
    std::vector<S> x(n);
    for (std::size_t i = 0; i < n; ++i) { double v = std::is_integral<S>::value ? std::floor(d[i]) : d[i]; if (std::is_integral<S>::value && std::fabs(v) > 30) v = std::fmod(v, 30.0); x[i] = (S)v; }
    return x;
}
// two values of the same quantity: each within its own allowance of the truth, so within twice the allowance of each other
static void agree(std::string const &key, ld lazy_, ld imm, ld truth, ld tol, std::string const &wh)
{
    check_near(key + ":lazy", lazy_, truth, tol, wh); check_near(key + ":immediate", imm, truth, tol, wh);
    check_near(key + ":agree", lazy_, imm, 2 * tol, wh);
}
template<class S> static void plain(Rng &r, std::string const &name)
{
    std::size_t n = gen_len(r); int kind; std::vector<S> x = stream<S>(r, n, kind); std::vector<double> c = gen(r, n, (int)r.below(NKINDS));
    ld eps = std::is_same<S, float>::value ? 1.2e-7L : 2.3e-16L;
    accumulator_set<S, stats<tag::mean(lazy), tag::variance(lazy)> > a;
    accumulator_set<S, stats<tag::mean(immediate), tag::variance(immediate)> > b;
    accumulator_set<S, stats<tag::mean, tag::variance> > d;
    // one variant listed, the other one asked for by something else, in both orders
    accumulator_set<S, stats<tag::mean(lazy), tag::variance(immediate)> > m1;
    accumulator_set<S, stats<tag::variance(immediate), tag::mean(lazy)> > m2;
    accumulator_set<S, stats<tag::mean(immediate), tag::variance(lazy)> > m3;
    accumulator_set<S, stats<tag::variance(lazy), tag::mean(immediate)> > m4;
    accumulator_set<S, stats<tag::variance(immediate), tag::skewness, tag::mean(lazy), tag::kurtosis> > m5;
    accumulator_set<S, stats<tag::kurtosis, tag::mean(immediate), tag::skewness, tag::variance(lazy)> > m6;
    accumulator_set<S, stats<tag::error_of<tag::mean(lazy)>, tag::mean(immediate)> > e1;
    accumulator_set<S, stats<tag::mean(lazy), tag::error_of<tag::mean(immediate)> > > e2;
    accumulator_set<S, stats<MV(lazy), tag::covariance<double, tag::covariate1>, tag::mean(immediate)> > v1;
    accumulator_set<S, stats<tag::covariance<double, tag::covariate1>, MV(immediate), tag::mean(lazy)> > v2;
    Schedule s(r, n); std::string base = name + "/" + kind_name(kind) + " x=" + str_seq(x, 8);
    for (std::size_t i = 0; i < n;)
    {
        S v = x[i]; double cv = c[i]; ++i;
        a(v); b(v); d(v); m1(v); m2(v); m3(v); m4(v); m5(v); m6(v); e1(v); e2(v); v1(v, covariate1 = cv); v2(v, covariate1 = cv);
        if (!s.at(r, i)) continue;
        std::string wh = base + " after " + std::to_string(i);
        Moments m = moments(x, i), mc = moments(c, i); ld tm = tol_mean(m, eps), tv = tol_var(m, eps);
        agree("mean", mean(a), mean(b), m.mean, tm, wh); check_near("mean:default", mean(d), m.mean, tm, wh);
        agree("variance", variance(a), variance(b), m.var(), tv, wh); check_near("variance:default", variance(d), m.var(), tv, wh);
        agree("variance:immediate over a lazy mean", variance(m1), variance(m2), m.var(), tv, wh); agree("mean:under an immediate variance", mean(m1), mean(m2), m.mean, tm, wh);
        agree("variance:lazy over an immediate mean", variance(m3), variance(m4), m.var(), tv, wh); agree("mean:under a lazy variance", mean(m3), mean(m4), m.mean, tm, wh);
        agree("variance:mixed", variance(m5), variance(m6), m.var(), tv, wh);
        if (!std::is_same<S, int>::value || m.A < 200) { check_skew("skewness:lazy", skewness(m5), m, eps, wh); check_skew("skewness:immediate", skewness(m6), m, eps, wh); check_kurt("kurtosis:lazy", kurtosis(m5), m, eps, wh); check_kurt("kurtosis:immediate", kurtosis(m6), m, eps, wh); }
        check_err_mean("error_of<mean>:lazy", error_of<tag::mean>(e1), m, eps, wh); check_err_mean("error_of<mean>:immediate", error_of<tag::immediate_mean>(e2), m, eps, wh);
        ld ec = eps; agree("mean_of_variates", (extract_result<MV>(v1)), (extract_result<tag::immediate_mean_of_variates<double, tag::covariate1> >(v2)), mc.mean, tol_mean(mc, 2.3e-16L), wh);
        ld co = 0; for (std::size_t k = 0; k < i; ++k) co += ((ld)x[k] - m.mean) * ((ld)c[k] - mc.mean); co /= i;
        agree("covariance", covariance(v1), covariance(v2), co, 16 * (i + 8) * ec * m.A * mc.A, wh);
        count_event("extraction points", 1);
    }
    for (S v : x) sig((double)v); sig_stream(c); nontrivial(n >= 2); show(base);
}
template<class S> static void weighted_(Rng &r, std::string const &name)
{
    std::size_t n = gen_len(r, 800); int kind; std::vector<S> x = stream<S>(r, n, kind); std::vector<double> c = gen(r, n, (int)r.below(NKINDS)), w(n);
    bool wi = r.chance(.5); for (double &v : w) v = wi ? (double)r.range(1, 9) : r.uni() + .01;
    ld eps = 2.3e-16L;
    accumulator_set<S, stats<tag::mean(lazy), tag::variance(lazy), tag::mean_of_weights(lazy), MV(lazy)>, double> a;
    accumulator_set<S, stats<tag::mean(immediate), tag::variance(immediate), tag::mean_of_weights(immediate), MV(immediate)>, double> b;
    accumulator_set<S, stats<tag::weighted_mean(lazy), tag::weighted_variance(immediate), WMV(immediate)>, double> m1;
    accumulator_set<S, stats<tag::weighted_variance(immediate), tag::weighted_mean(lazy), WMV(lazy)>, double> m2;
    accumulator_set<S, stats<tag::weighted_mean(immediate), tag::weighted_variance(lazy)>, double> m3;
    accumulator_set<S, stats<tag::weighted_variance(lazy), tag::weighted_mean(immediate), tag::weighted_skewness, tag::weighted_kurtosis>, double> m4;
    accumulator_set<S, stats<tag::weighted_skewness, tag::weighted_mean(lazy), tag::weighted_kurtosis>, double> m5;
    accumulator_set<S, stats<WMV(lazy), tag::weighted_covariance<double, tag::covariate1>, tag::weighted_mean(immediate)>, double> v1;
    accumulator_set<S, stats<tag::weighted_covariance<double, tag::covariate1>, WMV(immediate), tag::weighted_mean(lazy)>, double> v2;
    Schedule s(r, n); std::string base = name + "/weighted/" + kind_name(kind) + " x=" + str_seq(x, 8);
    for (std::size_t i = 0; i < n;)
    {
        S v = x[i]; double cv = c[i], wt = w[i]; ++i;
        a(v, weight = wt, covariate1 = cv); b(v, covariate1 = cv, weight = wt); m1(v, weight = wt, covariate1 = cv); m2(v, weight = wt, covariate1 = cv); m3(v, weight = wt); m4(v, weight = wt); m5(v, weight = wt);
        v1(v, weight = wt, covariate1 = cv); v2(v, weight = wt, covariate1 = cv);
        if (!s.at(r, i)) continue;
        std::string wh = base + " after " + std::to_string(i);
        Moments m = wmoments(x, w, i), mc = wmoments(c, w, i), mw = moments(w, i); ld k = 4, tm = k * tol_mean(m, eps), tv = k * tol_var(m, eps);
        agree("weighted_mean", mean(a), mean(b), m.mean, tm, wh); agree("weighted_variance", variance(a), variance(b), m.var(), tv, wh);
        agree("mean_of_weights", mean_of_weights(a), mean_of_weights(b), mw.mean, tol_mean(mw, eps), wh);
        agree("weighted_mean_of_variates", (extract_result<MV>(a)), (extract_result<tag::immediate_mean_of_variates<double, tag::covariate1> >(b)), mc.mean, k * tol_mean(mc, eps), wh);
        agree("weighted_mean_of_variates:mixed", (extract_result<WMV>(m2)), (extract_result<tag::immediate_weighted_mean_of_variates<double, tag::covariate1>>(m1)), mc.mean, k * tol_mean(mc, eps), wh);
        agree("weighted_variance:immediate over a lazy mean", weighted_variance(m1), weighted_variance(m2), m.var(), tv, wh); agree("weighted_mean:under an immediate variance", weighted_mean(m1), weighted_mean(m2), m.mean, tm, wh);
        agree("weighted_variance:lazy over an immediate mean", weighted_variance(m3), weighted_variance(m4), m.var(), tv, wh); agree("weighted_mean:under a lazy variance", weighted_mean(m3), weighted_mean(m4), m.mean, tm, wh);
        if (!std::is_same<S, int>::value || m.A < 200) { check_skew("weighted_skewness:immediate", weighted_skewness(m4), m, 4 * eps, wh); check_skew("weighted_skewness:lazy", weighted_skewness(m5), m, 4 * eps, wh); check_kurt("weighted_kurtosis:immediate", weighted_kurtosis(m4), m, 4 * eps, wh); check_kurt("weighted_kurtosis:lazy", weighted_kurtosis(m5), m, 4 * eps, wh); }
        ld co = 0; for (std::size_t q = 0; q < i; ++q) co += w[q] * ((ld)x[q] - m.mean) * ((ld)c[q] - mc.mean); co /= m.W;
        agree("weighted_covariance", weighted_covariance(v1), weighted_covariance(v2), co, 64 * (i + 8) * eps * m.A * mc.A, wh);
        count_event("extraction points", 1);
    }
    for (S v : x) sig((double)v); sig_stream(w); nontrivial(n >= 2); show(base);
}
template<class S> static void rolling(Rng &r, std::string const &name)
{
    std::size_t win = 1 + r.below(r.chance(.4) ? 4 : 60), n = r.chance(.2) ? r.below(win + 3) : r.below(12 * win + 20); int kind; std::vector<S> x = stream<S>(r, n, kind);
    ld eps = std::is_same<S, float>::value ? 1.2e-7L : 2.3e-16L;
    accumulator_set<S, stats<tag::rolling_mean(lazy), tag::rolling_variance(lazy)> > a(tag::rolling_window::window_size = win);
    accumulator_set<S, stats<tag::rolling_mean(immediate), tag::rolling_variance(immediate)> > b(tag::rolling_window::window_size = win);
    accumulator_set<S, stats<tag::rolling_mean(lazy), tag::rolling_variance(immediate)> > m1(tag::rolling_window::window_size = win);
    accumulator_set<S, stats<tag::rolling_variance(immediate), tag::rolling_mean(lazy)> > m2(tag::rolling_window::window_size = win);
    accumulator_set<S, stats<tag::rolling_mean(immediate), tag::rolling_variance(lazy)> > m3(tag::rolling_window::window_size = win);
    accumulator_set<S, stats<tag::rolling_variance(lazy), tag::rolling_mean(immediate)> > m4(tag::rolling_window::window_size = win);
    accumulator_set<S, stats<tag::rolling_mean, tag::rolling_variance> > d(tag::rolling_window::window_size = win);
    Schedule s(r, n); std::string base = name + "/rolling window " + std::to_string(win) + "/" + kind_name(kind) + " x=" + str_seq(x, 8); ld A = 0;
    for (std::size_t i = 0; i < n;)
    {
        S v = x[i]; ++i; a(v); b(v); m1(v); m2(v); m3(v); m4(v); d(v); A = std::max(A, (ld)std::fabs((ld)v));
        if (!s.at(r, i)) continue;
        std::string wh = base + " after " + std::to_string(i);
        std::size_t k = std::min(i, win); std::vector<S> z(x.begin() + (i - k), x.begin() + i); Moments m = moments(z, k);
        ld tm = 8 * (i + 8) * eps * A, tv = 32 * (i + 8) * eps * A * A, ev = k > 1 ? m.var() * k / (k - 1) : 0;
        agree("rolling_mean", rolling_mean(a), rolling_mean(b), m.mean, tm, wh); check_near("rolling_mean:default", rolling_mean(d), m.mean, tm, wh);
        agree("rolling_mean:mixed", rolling_mean(m1), rolling_mean(m3), m.mean, tm, wh); agree("rolling_mean:mixed2", rolling_mean(m2), rolling_mean(m4), m.mean, tm, wh);
        agree("rolling_variance", rolling_variance(a), rolling_variance(b), ev, tv, wh); check_near("rolling_variance:default", rolling_variance(d), ev, tv, wh);
        agree("rolling_variance:mixed", rolling_variance(m3), rolling_variance(m1), ev, tv, wh); agree("rolling_variance:mixed2", rolling_variance(m4), rolling_variance(m2), ev, tv, wh);
        count_event("extraction points", 1);
    }
    for (S v : x) sig((double)v); sig((std::uint64_t)win); nontrivial(n >= 2); show(base);
}
#if PART == 1
SCENARIO(plain_double, 400) { plain<double>(r, "double"); }
#elif PART == 2
SCENARIO(plain_long, 6) { LongCase l; plain<double>(r, "double"); }
SCENARIO(plain_int, 200) { plain<int>(r, "int"); }
SCENARIO(plain_float, 200) { plain<float>(r, "float"); }
#elif PART == 3
SCENARIO(weighted_long, 6) { LongCase l; weighted_<double>(r, "double"); }
SCENARIO(weighted_double, 400) { weighted_<double>(r, "double"); }
#elif PART == 4
SCENARIO(weighted_int, 200) { weighted_<int>(r, "int"); }
#else
SCENARIO(rolling_double, 500) { rolling<double>(r, "double"); }
SCENARIO(rolling_int, 300) { rolling<int>(r, "int"); }
SCENARIO(rolling_float, 200) { rolling<float>(r, "float"); }
#endif
