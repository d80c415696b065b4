// C01: the same statistics over other arithmetic sample types.
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include "ref.hpp"
using namespace boost::accumulators;
using namespace vf;

// results of integer samples are computed in double, floating types in themselves
template<class T> struct eps_of { static ld value() { return std::is_integral<T>::value ? (ld)std::numeric_limits<double>::epsilon() : (ld)std::numeric_limits<T>::epsilon(); } };

template<class T> static std::vector<T> gen_t(Rng &r, std::size_t n, long bound)
{
    std::vector<T> v; v.reserve(n);
    int shape = (int)r.below(5);
    long lo = std::is_unsigned<T>::value ? 0 : -bound, hi = bound, c = r.range(lo, hi);
    for (std::size_t i = 0; i < n; ++i)
    {
        T x;
        switch (shape)
        {
        case 0: x = (T)r.range(lo, hi); break;
        case 1: x = (T)c; break;
        case 2: x = (T)(lo + (long)(i % (std::size_t)(hi - lo + 1))); break;
        case 3: x = (T)(r.chance(.5) ? lo : hi); break;
        default: x = std::is_floating_point<T>::value ? (T)(r.normal() * bound / 4) : (T)r.range(lo / 2, hi / 2); break;
        }
        v.push_back(x);
    }
    if (r.chance(.2)) std::sort(v.begin(), v.end());
    if (r.chance(.1)) { std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); }
    return v;
}

template<class T> static void typed(Rng &r, char const *name, long bound, std::size_t maxn, bool higher)
{
    std::size_t n = r.below(maxn + 1);
    std::vector<T> v = gen_t<T>(r, n, bound);
    sig(hash_str(name)); for (T x : v) sig((double)x); nontrivial(n >= 2);
    accumulator_set<T, stats<tag::count, tag::sum, tag::mean, tag::min, tag::max, tag::moment<2>, tag::lazy_variance> > a;
    accumulator_set<T, stats<tag::immediate_mean, tag::variance> > b;
    accumulator_set<T, stats<tag::skewness, tag::kurtosis, tag::moment<3>, tag::moment<4> > > c;
    ld eps = eps_of<T>::value();
    std::string k = std::string(":") + name;
    Schedule s(r, n);
    check_eq("count" + k, count(a), (std::size_t)0); check_eq("sum:empty" + k, sum(a), T());
    check_eq("min:empty" + k, (min)(a), (std::numeric_limits<T>::max)());
    check_eq("max:empty" + k, (max)(a), std::numeric_limits<T>::lowest());
    for (std::size_t i = 0; i < n; ++i)
    {
        a(v[i]); b(v[i]); if (higher) c(v[i]);
        if (!s.at(r, i + 1)) continue;
        Moments m = moments(v, i + 1);
        std::string w = name + str_seq(v, 5) + " prefix " + str(i + 1);
        check_eq("count" + k, count(a), i + 1, w);
        if (std::is_integral<T>::value) check_true("sum" + k, (ld)sum(a) == m.sum, w + " got " + str(+sum(a)));
        else check_near("sum" + k, sum(a), m.sum, tol_sum(m, eps), w);
        check_true("min" + k, (ld)(min)(a) == m.mn, w);
        check_true("max" + k, (ld)(max)(a) == m.mx, w);
        check_near("mean" + k, mean(a), m.mean, tol_mean(m, eps), w);
        check_near("mean(immediate)" + k, mean(b), m.mean, tol_mean(m, eps), w);
        check_near("moment2" + k, moment<2>(a), m.raw[2], tol_moment(m, 2, eps), w);
        check_var("variance(lazy)" + k, lazy_variance(a), m, eps, w);
        check_var("variance(immediate)" + k, variance(b), m, eps, w);
        if (higher)
        {
            check_near("moment3" + k, moment<3>(c), m.raw[3], tol_moment(m, 3, eps), w);
            check_near("moment4" + k, moment<4>(c), m.raw[4], tol_moment(m, 4, eps), w);
            check_skew("skewness" + k, skewness(c), m, eps, w);
            check_kurt("kurtosis" + k, kurtosis(c), m, eps, w);
        }
    }
    count_event(std::string("streams of ") + name);
    if (n > 1) show(std::string(name) + " " + str_seq(v, 6) + " -> mean " + str(mean(a)));
}
#if PART == 1
SCENARIO(type_int, 500) { typed<int>(r, "int", 100, 20, true); }
SCENARIO(type_int_wide, 300) { typed<int>(r, "int", 2000, 500, false); }
#elif PART == 2
SCENARIO(type_unsigned, 300) { typed<unsigned>(r, "unsigned", 100, 20, true); }
SCENARIO(type_longlong, 500) { typed<long long>(r, "longlong", 10000, 300, true); }
#elif PART == 3
SCENARIO(type_ulonglong, 300) { typed<unsigned long long>(r, "ulonglong", 10000, 300, true); }
SCENARIO(type_short, 200) { typed<short>(r, "short", 20, 80, false); }
#elif PART == 4
SCENARIO(type_float, 500) { typed<float>(r, "float", 50, 400, true); }
SCENARIO(type_longdouble, 300) { typed<long double>(r, "longdouble", 1000, 300, true); }

#elif PART == 5
template<class T> static void int_extremes(Rng &r, char const *name)
{
    std::vector<T> pool = {(std::numeric_limits<T>::min)(), (std::numeric_limits<T>::max)(), T(0), T(1), T(-1), T((std::numeric_limits<T>::min)() + 1), T((std::numeric_limits<T>::max)() - 1)};
    std::size_t n = 1 + r.below(7); std::vector<T> v;
    for (std::size_t i = 0; i < n; ++i) v.push_back(r.pick(pool));
    sig(hash_str(name)); for (T x : v) sig((std::uint64_t)x); nontrivial(n >= 2);
    accumulator_set<T, stats<tag::min> > a; accumulator_set<T, stats<tag::max> > b; accumulator_set<T, features<tag::count, tag::max, tag::min> > c;
    T mn = v[0], mx = v[0];
    for (std::size_t i = 0; i < n; ++i)
    {
        a(v[i]); b(v[i]); c(v[i]); mn = std::min(mn, v[i]); mx = std::max(mx, v[i]);
        std::string k = std::string(":extreme:") + name;
        check_eq("min" + k, (min)(a), mn); check_eq("max" + k, (max)(b), mx);
        check_eq("min" + k, (min)(c), mn); check_eq("max" + k, (max)(c), mx); check_eq("count" + k, count(c), i + 1);
    }
}
SCENARIO(extreme_ints, 400)
{
    switch (r.below(8))
    {
    case 0: int_extremes<signed char>(r, "schar"); break;
    case 1: int_extremes<unsigned char>(r, "uchar"); break;
    case 2: int_extremes<short>(r, "short"); break;
    case 3: int_extremes<unsigned short>(r, "ushort"); break;
    case 4: int_extremes<int>(r, "int"); break;
    case 5: int_extremes<unsigned>(r, "unsigned"); break;
    case 6: int_extremes<long long>(r, "longlong"); break;
    default: int_extremes<unsigned long long>(r, "ulonglong"); break;
    }
}
// integer mean is not truncated, whatever the order of values
SCENARIO(int_mean, 300)
{
    accumulator_set<int, stats<tag::mean> > a; accumulator_set<int, stats<tag::mean(immediate)> > b;
    accumulator_set<long, stats<tag::mean> > c; long s = 0; std::size_t n = 1 + r.below(40);
    for (std::size_t i = 0; i < n; ++i)
    {
        int x = (int)r.range(-1000000, 1000000); if (r.chance(.3)) x &= 1;
        a(x); b(x); c(x); s += x; sig((std::uint64_t)(long)x);
        ld e = (ld)s / (ld)(i + 1);
        check_near("mean:int", mean(a), e, 4e-16L * (std::fabs(e) + 1)); check_near("mean:long", mean(c), e, 4e-16L * (std::fabs(e) + 1));
        check_near("mean(immediate):int", mean(b), e, 1e-9L);
    }
    nontrivial(n >= 2);
}
#elif PART == 6
// moments of every order: exact powers, summed in long double
template<int N, class T, class S> static void one_moment(S const &a, std::vector<T> const &v, std::size_t n, ld eps, std::string const &w)
{
    ld s = 0, t = 0; for (std::size_t i = 0; i < n; ++i) { ld p = 1; for (int k = 0; k < N; ++k) p *= (ld)v[i]; s += p; t += std::fabs(p); }
    check_near("moment" + std::to_string(N) + ":high", moment<N>(a), s / n, (ld)(n + 2 * N + 4) * eps * t / n, w);
}
template<class T> static void high(Rng &r, char const *name, long bound)
{
    std::size_t n = 1 + r.below(60); std::vector<T> v = gen_t<T>(r, n, bound); sig(hash_str(name)); for (T x : v) sig((double)x); nontrivial(n >= 2); ld eps = eps_of<T>::value();
    accumulator_set<T, stats<tag::moment<6>, tag::moment<7>, tag::moment<8>, tag::moment<9>, tag::moment<10> > > a; accumulator_set<T, stats<tag::moment<11>, tag::moment<12>, tag::moment<13>, tag::moment<16> > > b;
    accumulator_set<T, stats<tag::moment<15> > > c;
    for (std::size_t i = 0; i < n; ++i)
    {
        a(v[i]); b(v[i]); c(v[i]); if (!r.chance(.3) && i + 1 < n) continue;
        std::string w = std::string(name) + " " + str_seq(v, 6) + " prefix " + str(i + 1);
        one_moment<6>(a, v, i + 1, eps, w); one_moment<7>(a, v, i + 1, eps, w); one_moment<8>(a, v, i + 1, eps, w); one_moment<9>(a, v, i + 1, eps, w); one_moment<10>(a, v, i + 1, eps, w);
        one_moment<11>(b, v, i + 1, eps, w); one_moment<12>(b, v, i + 1, eps, w); one_moment<13>(b, v, i + 1, eps, w); one_moment<16>(b, v, i + 1, eps, w); one_moment<15>(c, v, i + 1, eps, w);
    }
    count_event(std::string("high moments of ") + name);
}
SCENARIO(high_moments, 300) { if (r.chance(.6)) high<double>(r, "double", r.chance(.5) ? 3 : 40); else high<long long>(r, "longlong", 8); }
#elif PART == 7
// integers beyond the precision of double: sums stay exact
template<class T> static void wide(Rng &r, char const *name)
{
    std::size_t n = 1 + r.below(40); int sh = (int)r.range(40, 57); unsigned long long m = 1ull << sh; accumulator_set<T, stats<tag::count, tag::sum, tag::mean, tag::min, tag::max> > a; accumulator_set<T, stats<tag::sum> > b;
    T s = 0, mn = 0, mx = 0; ld A = 0; nontrivial(n >= 2); sig(hash_str(name));
    for (std::size_t i = 0; i < n; ++i)
    {
        unsigned long long u = r.next() & (m - 1); if (r.chance(.3)) u = m - 1 - r.below(3); if (r.chance(.1)) u = r.below(2); T x = (T)u; if (std::is_signed<T>::value && r.chance(.4)) x = (T)-x;
        a(x); b(x); s += x; mn = i ? std::min(mn, x) : x; mx = i ? std::max(mx, x) : x; A = std::max(A, (ld)std::fabs((ld)x)); sig((std::uint64_t)x); std::string w = std::string(name) + " of " + std::to_string(sh) + " bits, after " + str(i + 1) + " last " + std::to_string(x);
        check_eq("sum:wide", (T)sum(a), s, w); check_eq("sum:wide alone", (T)sum(b), s, w); check_eq("min:wide", (T)(min)(a), mn, w); check_eq("max:wide", (T)(max)(a), mx, w);
        check_near("mean:wide", mean(a), (ld)s / (ld)(i + 1), 4e-16L * (std::fabs((ld)s / (ld)(i + 1)) + A / (i + 1)), w);
    }
    count_event(std::string("wide integers of ") + name);
}
SCENARIO(wide_integers, 300) { switch (r.below(4)) { case 0: wide<long long>(r, "longlong"); break; case 1: wide<unsigned long long>(r, "ulonglong"); break; case 2: wide<long>(r, "long"); break; default: wide<unsigned long>(r, "ulong"); } }
SCENARIO(type_schar, 150) { typed<signed char>(r, "schar", 3, 12, false); }
SCENARIO(type_ushort, 150) { typed<unsigned short>(r, "ushort", 20, 80, false); }
#endif
