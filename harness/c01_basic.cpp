// C01: unweighted basic statistics, double samples.
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include "ref.hpp"
using namespace boost::accumulators;
using namespace vf;

#if PART == 1
typedef accumulator_set<double, stats<tag::count, tag::sum, tag::mean, tag::min, tag::max,
    tag::moment<1>, tag::moment<2>, tag::moment<3>, tag::moment<4>, tag::moment<5>,
    tag::lazy_variance, tag::skewness, tag::kurtosis, tag::error_of<tag::mean> > > lazy_set;
typedef accumulator_set<double, stats<tag::count, tag::immediate_mean, tag::variance, tag::min, tag::max,
    tag::error_of<tag::immediate_mean> > > imm_set;

static void check_lazy(lazy_set const &a, std::vector<double> const &v, std::size_t n, std::string const &where, bool moments_too = true)
{
    ld eps = std::numeric_limits<double>::epsilon();
    Moments m = moments(v, n);
    check_eq("count", count(a), n, where);
    check_near("sum", sum(a), m.sum, tol_sum(m, eps), where);
    if (n == 0)
    {
        check_eq("min:empty", (min)(a), (std::numeric_limits<double>::max)(), where);
        check_eq("max:empty", (max)(a), -(std::numeric_limits<double>::max)(), where);
        return;
    }
    check_eq("min", (min)(a), (double)m.mn, where);
    check_eq("max", (max)(a), (double)m.mx, where);
    check_near("mean", mean(a), m.mean, tol_mean(m, eps), where);
    if (!moments_too) return;
    check_near("moment1", moment<1>(a), m.raw[1], tol_moment(m, 1, eps), where);
    check_near("moment2", moment<2>(a), m.raw[2], tol_moment(m, 2, eps), where);
    check_near("moment3", moment<3>(a), m.raw[3], tol_moment(m, 3, eps), where);
    check_near("moment4", moment<4>(a), m.raw[4], tol_moment(m, 4, eps), where);
    check_near("moment5", moment<5>(a), m.raw[5], tol_moment(m, 5, eps), where);
    check_var("variance(lazy)", lazy_variance(a), m, eps, where);
    check_skew("skewness", skewness(a), m, eps, where);
    check_kurt("kurtosis", kurtosis(a), m, eps, where);
    check_err_mean("error_of<mean>", error_of<tag::mean>(a), m, eps, where);
}
static void check_imm(imm_set const &a, std::vector<double> const &v, std::size_t n, std::string const &where, bool moments_too = true)
{
    ld eps = std::numeric_limits<double>::epsilon();
    Moments m = moments(v, n);
    check_eq("count", count(a), n, where);
    if (n == 0) return;
    check_eq("min", (min)(a), (double)m.mn, where);
    check_eq("max", (max)(a), (double)m.mx, where);
    check_near("mean(immediate)", mean(a), m.mean, tol_mean(m, eps), where);
    if (!moments_too) return;
    check_var("variance(immediate)", variance(a), m, eps, where);
    check_err_mean("error_of<immediate_mean>", error_of<tag::immediate_mean>(a), m, eps, where);
}

SCENARIO(streams, 3000)
{
    int kind = (int)r.below(NKINDS);
    std::size_t n = gen_len(r);
    double scale = r.chance(.5) ? 1.0 : std::pow(10.0, (double)r.range(-12, 12));
    std::vector<double> v = gen(r, n, kind, scale);
    sig_stream(v); nontrivial(n >= 2);
    lazy_set a; imm_set b;
    Schedule s(r, n), t(r, n);
    std::string desc = std::string(kind_name(kind)) + " scale " + str(scale) + " " + str_seq(v, 6);
    check_lazy(a, v, 0, desc); check_imm(b, v, 0, desc);
    for (std::size_t i = 0; i < n; ++i)
    {
        a(v[i]); b(v[i]);
        if (s.at(r, i + 1)) check_lazy(a, v, i + 1, desc + " prefix " + str(i + 1));
        if (t.at(r, i + 1)) check_imm(b, v, i + 1, desc + " prefix " + str(i + 1));
    }
    if (n) show(desc + " -> mean " + str(mean(a)) + " var " + str(variance(b)));
    count_event("samples pushed", 2 * n);
}

// extreme magnitudes: only statistics that stay representable
SCENARIO(magnitudes, 600)
{
    std::size_t n = 1 + r.below(60);
    int e = (int)r.range(-290, 290);
    std::vector<double> v(n);
    for (auto &x : v) { x = r.normal() * std::pow(10.0, e) * (r.chance(.3) ? 1e-8 : 1); if (r.chance(.02)) x = -0.0; }
    sig_stream(v); nontrivial(n >= 2);
    accumulator_set<double, stats<tag::count, tag::sum, tag::mean, tag::min, tag::max> > a;
    accumulator_set<double, stats<tag::immediate_mean> > b;
    ld eps = std::numeric_limits<double>::epsilon();
    for (std::size_t i = 0; i < n; ++i)
    {
        a(v[i]); b(v[i]);
        Moments m = moments(v, i + 1);
        ld den = std::numeric_limits<double>::denorm_min();
        check_eq("count", count(a), i + 1);
        check_near("sum", sum(a), m.sum, tol_sum(m, eps) + den, "magnitude");
        check_near("mean", mean(a), m.mean, tol_mean(m, eps) + 8 * den, "magnitude");
        check_near("mean(immediate)", mean(b), m.mean, tol_mean(m, eps) + 8 * den, "magnitude");
        check_eq("min", (min)(a), (double)m.mn); check_eq("max", (max)(a), (double)m.mx);
    }
    show("1e" + str(e) + " " + str_seq(v, 4));
}

// infinities and extreme finite values are ordinary samples for min and max
SCENARIO(extremes_minmax, 200)
{
    std::vector<double> pool = {0.0, -0.0, 1, -1, (std::numeric_limits<double>::max)(), -(std::numeric_limits<double>::max)(),
        (std::numeric_limits<double>::min)(), std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
    std::size_t n = 1 + r.below(8);
    std::vector<double> v; for (std::size_t i = 0; i < n; ++i) v.push_back(r.pick(pool));
    sig_stream(v); nontrivial(n >= 2);
    accumulator_set<double, stats<tag::min> > a; accumulator_set<double, stats<tag::max> > b; accumulator_set<double, stats<tag::count> > c;
    double mn = INFINITY, mx = -INFINITY;
    for (std::size_t i = 0; i < n; ++i)
    {
        a(v[i]); b(v[i]); c(v[i]);
        mn = std::min(mn, v[i]); mx = std::max(mx, v[i]);
        check_eq("count", count(c), i + 1);
        // an infinite minimum of an all-infinite stream cannot undercut the finite identity element
        if (mn < INFINITY) check_eq("min:extreme", (min)(a), mn, str_seq(v));
        if (mx > -INFINITY) check_eq("max:extreme", (max)(b), mx, str_seq(v));
    }
}

// long streams: counters and sums beyond 2^16 samples
SCENARIO(long_streams, 12)
{
    std::size_t n = 60000 + r.below(90000);
    int kind = (int)r.below(NKINDS);
    std::vector<double> v = gen(r, n, kind);
    lazy_set a; imm_set b;
    sig((std::uint64_t)n); sig((std::uint64_t)kind); sig(v[0]); nontrivial();
    std::set<std::size_t> marks = {n, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073};
    for (int i = 0; i < 5; ++i) marks.insert(1 + r.below(n));
    for (std::size_t i = 0; i < n; ++i)
    {
        a(v[i]); b(v[i]);
        if (marks.count(i + 1)) { check_lazy(a, v, i + 1, "long " + str(i + 1)); check_imm(b, v, i + 1, "long " + str(i + 1)); }
    }
    show("n=" + str(n) + " kind " + kind_name(kind));
    count_event("samples pushed", 2 * n);
}
#else
// every statistic alone in its set: no help from neighbours
template<class Feat, class F> static void solo(std::vector<double> const &v, Schedule const &s, Rng &r, F f)
{
    accumulator_set<double, stats<Feat> > a;
    for (std::size_t i = 0; i < v.size(); ++i) { a(v[i]); if (s.at(r, i + 1)) f(a, moments(v, i + 1)); }
}
SCENARIO(solo_sets, 600)
{
    int kind = (int)r.below(NKINDS); std::size_t n = gen_len(r, 400);
    std::vector<double> v = gen(r, n, kind); sig_stream(v); nontrivial(n >= 2);
    Schedule s(r, n); ld eps = std::numeric_limits<double>::epsilon(); std::string w = "solo " + str_seq(v, 5);
    solo<tag::count>(v, s, r, [&](auto &a, Moments const &m) { check_eq("count:solo", count(a), m.n, w); });
    solo<tag::sum>(v, s, r, [&](auto &a, Moments const &m) { check_near("sum:solo", sum(a), m.sum, tol_sum(m, eps), w); });
    solo<tag::mean>(v, s, r, [&](auto &a, Moments const &m) { check_near("mean:solo", mean(a), m.mean, tol_mean(m, eps), w); });
    solo<tag::mean(immediate)>(v, s, r, [&](auto &a, Moments const &m) { check_near("mean(immediate):solo", mean(a), m.mean, tol_mean(m, eps), w); });
    solo<tag::variance(lazy)>(v, s, r, [&](auto &a, Moments const &m) { check_var("variance(lazy):solo", variance(a), m, eps, w); });
    solo<tag::variance(immediate)>(v, s, r, [&](auto &a, Moments const &m) { check_var("variance(immediate):solo", variance(a), m, eps, w); });
    solo<tag::moment<2> >(v, s, r, [&](auto &a, Moments const &m) { check_near("moment2:solo", moment<2>(a), m.raw[2], tol_moment(m, 2, eps), w); });
    solo<tag::moment<6> >(v, s, r, [&](auto &a, Moments const &m) { check_near("moment6:solo", moment<6>(a), m.raw[6], tol_moment(m, 6, eps), w); });
    solo<tag::skewness>(v, s, r, [&](auto &a, Moments const &m) { check_skew("skewness:solo", skewness(a), m, eps, w); });
    solo<tag::kurtosis>(v, s, r, [&](auto &a, Moments const &m) { check_kurt("kurtosis:solo", kurtosis(a), m, eps, w); });
    solo<tag::error_of<tag::mean> >(v, s, r, [&](auto &a, Moments const &m) { check_err_mean("error_of<mean>:solo", error_of<tag::mean>(a), m, eps, w); });
    solo<tag::error_of<tag::mean(immediate)> >(v, s, r, [&](auto &a, Moments const &m) { check_err_mean("error_of<mean(immediate)>:solo", error_of<tag::mean(immediate)>(a), m, eps, w); });
}
#endif
