// C05: rolling statistics describe exactly the last N samples.
#include <complex>
#if PART == 4
#include <boost/accumulators/numeric/functional/vector.hpp>
#include <boost/accumulators/numeric/functional/complex.hpp>
#endif
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include "ref.hpp"
using namespace boost::accumulators;
using namespace vf;

static std::size_t gen_window(Rng &r)
{
    double u = r.uni(); if (long_case() && u < .7) return u < .3 ? 1 + r.below(3000) : 60000 + r.below(12000);
    if (u < .35) return 1 + r.below(4);
    if (u < .8) return 1 + r.below(30);
    return 1 + r.below(300);
}
static std::size_t gen_pushes(Rng &r, std::size_t w)
{
    if (long_case()) return (w > 3000 ? w : 0) + long_len(r);
    switch (r.below(5))
    {
    case 0: return r.below(w + 3);
    case 1: return w + r.below(3);
    case 2: return 2 * w + 2 + r.below(5);
    case 3: return r.below(12 * w + 10);
    default: return (w < 40 ? 40 * w : 4 * w) + r.below(50);
    }
}
#if PART <= 3
// Samples are integers for integer types; |x| <= bound.
template<class T> static std::vector<T> stream(Rng &r, std::size_t n, double bound, int kind)
{
    std::vector<double> d = gen(r, n, kind);
    double A = 0; for (double v : d) A = std::max(A, std::fabs(v));
    std::vector<T> x(n);
    for (std::size_t i = 0; i < n; ++i)
    {
        double v = A > 0 ? d[i] * bound / A : d[i];
        if (std::is_unsigned<T>::value) v = std::fabs(v);
        if (std::is_integral<T>::value) v = std::floor(v);
        x[i] = (T)v;
    }
    return x;
}
template<class T> static void typed(Rng &r, std::string const &name, double bound, bool moments4)
{
    std::size_t w = gen_window(r), n = gen_pushes(r, w);
    int kind = (int)r.below(NKINDS);
    std::vector<T> x = stream<T>(r, n, bound, kind);
    bool const integral = std::is_integral<T>::value;
    accumulator_set<T, stats<tag::rolling_window, tag::rolling_window_plus1, tag::rolling_count, tag::rolling_sum, tag::rolling_mean(lazy),
        tag::rolling_moment<2>, tag::rolling_moment<3>, tag::rolling_variance(lazy)> > a(tag::rolling_window::window_size = w);
    accumulator_set<T, stats<tag::rolling_mean, tag::rolling_variance> > b(tag::rolling_window::window_size = w);           // both immediate
    accumulator_set<T, stats<tag::rolling_window> > c(rolling_window_size = w);
    accumulator_set<T, stats<tag::rolling_sum> > c2(tag::rolling_sum::window_size = w);
    accumulator_set<T, stats<tag::rolling_count> > c3(tag::rolling_count::window_size = w);
    accumulator_set<T, stats<tag::lazy_rolling_variance, tag::immediate_rolling_mean> > d(tag::rolling_window::window_size = w);
    ld eps = integral ? (ld)std::numeric_limits<double>::epsilon() : (ld)std::numeric_limits<T>::epsilon();
    Schedule s(r, n); std::size_t i = 0; ld A = 0;
    auto look = [&]
    {
        std::size_t m = std::min(i, w); ld P = (ld)i + 8;
        std::vector<T> win(x.begin() + (i - m), x.begin() + i);
        std::vector<T> win1(x.begin() + (i - std::min(i, w + 1)), x.begin() + i);
        std::string wh = name + "/" + kind_name(kind) + " window " + std::to_string(w) + " after " + std::to_string(i) + " pushes, window holds " + str_seq(win);
        auto range_is = [&](std::string const &key, auto rg, std::vector<T> const &e)
        {
            std::vector<T> g(rg.begin(), rg.end());
            check_true(key, g == e, wh + " got " + str_seq(g));
        };
        range_is("rolling_window", rolling_window(a), win); range_is("rolling_window:alone", rolling_window(c), win);
        range_is("rolling_window_plus1", rolling_window_plus1(a), win1);
        check_eq("rolling_count", rolling_count(a), m, wh); check_eq("rolling_count:alone", rolling_count(c3), m, wh);
        check_eq("rolling_count:imm", rolling_count(b), m, wh);
        Moments M = moments(win, m);
        ld tsum = integral ? 0 : P * eps * A * (ld)w;
        check_near("rolling_sum", (ld)rolling_sum(a), M.sum, tsum, wh); check_near("rolling_sum:alone", (ld)rolling_sum(c2), M.sum, tsum, wh);
        if (!m) return;
        ld tm = integral ? 2 * eps * std::fabs(M.mean) : 4 * P * eps * A;
        check_near("rolling_mean(lazy)", lazy_rolling_mean(a), M.mean, tm, wh);
        check_near("rolling_mean(immediate)", rolling_mean(b), M.mean, 8 * P * eps * A, wh);
        check_near("rolling_mean(immediate):d", immediate_rolling_mean(d), M.mean, 8 * P * eps * A, wh);
        check_near("rolling_moment<2>", rolling_moment<2>(a), M.raw[2], integral ? 4 * eps * M.raw[2] : 8 * P * eps * A * A, wh);
        if (moments4) check_near("rolling_moment<3>", rolling_moment<3>(a), M.raw[3], integral ? 8 * eps * A * A * A : 16 * P * eps * A * A * A, wh);
        ld var = m < 2 ? 0 : M.var() * (ld)m / (ld)(m - 1), tv = m < 2 ? 0 : 100 * P * eps * A * A;
        check_near("rolling_variance(lazy)", lazy_rolling_variance(a), var, tv, wh);
        check_near("rolling_variance(immediate)", rolling_variance(b), var, tv, wh);
        check_near("rolling_variance(lazy, immediate mean)", lazy_rolling_variance(d), var, tv, wh);
        check_true("rolling_variance(immediate):negative", !(rolling_variance(b) < -tv), wh);
    };
    look();
    for (i = 0; i < n;)
    {
        T v = x[i]; A = std::max(A, (ld)std::fabs((ld)v));
        a(v); b(v); c(v); c2(v); c3(v); d(v); ++i;
        if (s.at(r, i)) look();
    }
    sig((std::uint64_t)w); for (T v : x) sig((double)v); sig(hash_str(name)); nontrivial(n >= 2);
    if (n > w) count_event("wrapped windows", n / (w + 1)); if (n == w) count_event("exactly full");
    if (n == w + 1) count_event("one past full");
    show(name + " window " + std::to_string(w) + " n=" + std::to_string(n) + " " + kind_name(kind));
}
#endif
#if PART == 1
SCENARIO(rolling_double, 700) { typed<double>(r, "double", std::pow(10.0, (double)r.range(-6, 6)), true); }
SCENARIO(rolling_long, 10) { LongCase l; typed<double>(r, "double", 100, true); }
SCENARIO(rolling_int, 500) { typed<int>(r, "int", 1000, true); }
#elif PART == 2
SCENARIO(rolling_float, 300) { typed<float>(r, "float", 100, true); }
SCENARIO(rolling_unsigned, 400) { typed<unsigned>(r, "unsigned", 1200, true); }
#elif PART == 3
SCENARIO(rolling_llong, 300) { typed<long long>(r, "long long", 1e4, true); }
SCENARIO(rolling_short, 200) { typed<short>(r, "short", 90, false); }
#else
// class-type samples
SCENARIO(rolling_vector, 200)
{
    typedef std::vector<double> V;
    std::size_t w = gen_window(r), n = std::min<std::size_t>(gen_pushes(r, w), 400), k = 1 + r.below(4);
    accumulator_set<V, stats<tag::rolling_window, tag::rolling_count> > a(tag::rolling_window::window_size = w);
    std::vector<V> x;
    Schedule s(r, n);
    for (std::size_t i = 0; i < n; ++i)
    {
        V v; for (std::size_t j = 0; j < k; ++j) v.push_back(std::floor(1000 * r.normal())); x.push_back(v); for (double y : v) sig(y);
        a(v);
        if (!s.at(r, i + 1)) continue;
        std::size_t m = std::min(i + 1, w); auto rg = rolling_window(a);
        check_eq("rolling_count:vector", rolling_count(a), m);
        std::vector<V> g(rg.begin(), rg.end());
        check_true("rolling_window:vector", g == std::vector<V>(x.end() - m, x.end()), "window " + std::to_string(w) + " after " + std::to_string(i + 1));
    }
    nontrivial(n >= 2); sig((std::uint64_t)w);
}
SCENARIO(rolling_complex, 200)
{
    typedef std::complex<double> C;
    std::size_t w = gen_window(r), n = std::min<std::size_t>(gen_pushes(r, w), 400);
    accumulator_set<C, stats<tag::rolling_window, tag::rolling_count, tag::rolling_sum, tag::lazy_rolling_mean> > a(tag::rolling_window::window_size = w);
    std::vector<C> x; Schedule s(r, n);
    for (std::size_t i = 0; i < n; ++i)
    {
        C v(std::floor(1000 * r.normal()), std::floor(1000 * r.normal())); x.push_back(v); sig(v.real()); sig(v.imag());
        a(v);
        if (!s.at(r, i + 1)) continue;
        std::size_t m = std::min(i + 1, w);
        C e(0, 0); for (std::size_t j = x.size() - m; j < x.size(); ++j) e += x[j];
        auto rg = rolling_window(a);
        check_true("rolling_window:complex", std::vector<C>(rg.begin(), rg.end()) == std::vector<C>(x.end() - m, x.end()), "window " + std::to_string(w));
        check_true("rolling_sum:complex", rolling_sum(a) == e, "window " + std::to_string(w) + " got " + str(rolling_sum(a)) + " want " + str(e));
        C mm = lazy_rolling_mean(a);
        check_near("rolling_mean:complex", mm.real(), e.real() / m, 1e-9, "re"); check_near("rolling_mean:complex", mm.imag(), e.imag() / m, 1e-9, "im");
    }
    nontrivial(n >= 2); sig((std::uint64_t)w);
}
#endif
