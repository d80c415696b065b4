// C02: weighted statistics.
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include "ref.hpp"
using namespace boost::accumulators;
using namespace vf;

template<class S, class W> struct eps_of2 { typedef decltype(S() * W()) P; static ld value() { return std::is_integral<P>::value ? (ld)std::numeric_limits<double>::epsilon() : (ld)std::numeric_limits<P>::epsilon(); } };

// weights: running total is positive from the first sample on
static std::vector<double> gen_weights(Rng &r, std::size_t n, bool integral, double maxratio)
{
    std::vector<double> w(n); int mode = (int)r.below(6);
    for (std::size_t i = 0; i < n; ++i)
    {
        double x;
        switch (mode)
        {
        case 0: x = 1; break;
        case 1: x = integral ? (double)r.range(1, 5) : r.uni_open(); break;
        case 2: x = integral ? (double)r.range(0, 3) : (r.chance(.3) ? 0 : r.uni()); break;
        case 3: x = integral ? (double)r.range(1, 9) : std::exp(std::log(maxratio) * r.uni()); break;
        case 4: x = integral ? 2 : 0.37; break;
        default: x = integral ? (r.chance(.1) ? 20 : 1) : (r.chance(.1) ? maxratio : 1.5); break;
        }
        w[i] = x;
    }
    if (n && !(w[0] > 0)) w[0] = 1;
    return w;
}

#if PART != 4
template<class S, class W> static void typed(Rng &r, std::string const &name, double bound, std::size_t maxn, double maxratio, bool higher)
{
    std::size_t n = r.chance(.1) ? r.below(3) : r.below(maxn + 1);
    bool si = std::is_integral<S>::value, wi = std::is_integral<W>::value;
    std::vector<S> x; std::vector<W> w;
    int kind = (int)r.below(NKINDS);
    {
        std::vector<double> d = gen(r, n, kind);
        double A = 0; for (double v : d) A = std::max(A, std::fabs(v));
        if (si) for (double &v : d) v = std::floor(v * bound / (A > 0 ? A : 1));
        else if (std::is_same<S, float>::value) for (double &v : d) v = v * bound / (A > 0 ? A : 1);
        for (double v : d) x.push_back((S)v);
        for (double v : gen_weights(r, n, wi, maxratio)) w.push_back((W)v);
    }
    for (std::size_t i = 0; i < n; ++i) { sig((double)x[i]); sig((double)w[i]); }
    sig(hash_str(name)); nontrivial(n >= 2);
    // requested by their unweighted names ...
    accumulator_set<S, stats<tag::count, tag::sum, tag::mean, tag::moment<2>, tag::lazy_variance>, W> a;
    accumulator_set<S, stats<tag::immediate_mean, tag::variance, tag::sum_of_weights, tag::mean_of_weights>, W> b;
    // ... and by their weighted names
    accumulator_set<S, stats<tag::weighted_skewness, tag::weighted_kurtosis, tag::weighted_moment<3>, tag::immediate_mean_of_weights>, W> c;
    accumulator_set<S, stats<tag::weighted_variance(lazy), tag::weighted_sum>, W> d;
    accumulator_set<S, stats<tag::weighted_variance(immediate)>, W> e;
    accumulator_set<S, stats<tag::skewness, tag::kurtosis>, W> f;
    ld eps = eps_of2<S, W>::value();
    // the total weight is kept in the weight type
    ld weps = wi ? (ld)std::numeric_limits<double>::epsilon() : (ld)std::numeric_limits<W>::epsilon();
    eps = std::max(eps, weps);
    Schedule s(r, n); std::string k = ":" + name;
    for (std::size_t i = 0; i < n; ++i)
    {
        a(x[i], weight = w[i]); b(x[i], weight = w[i]); d(x[i], weight = w[i]); e(x[i], weight = w[i]);
        if (higher) { c(x[i], weight = w[i]); f(x[i], weight = w[i]); }
        if (!s.at(r, i + 1)) continue;
        Moments m = wmoments(x, w, i + 1), mw = moments(w, i + 1);
        std::string wh = name + " x=" + str_seq(x, 5) + " w=" + str_seq(w, 5) + " prefix " + str(i + 1);
        check_eq("count" + k, count(a), i + 1, wh);
        check_near("sum" + k, sum(a), m.sum, si && wi ? 0 : tol_sum(m, eps), wh);
        check_near("weighted_sum" + k, weighted_sum(d), m.sum, si && wi ? 0 : tol_sum(m, eps), wh);
        check_near("sum_of_weights" + k, sum_of_weights(b), m.W, wi ? 0 : tol_sum(mw, weps), wh);
        check_near("mean_of_weights" + k, mean_of_weights(b), mw.mean, tol_mean(mw, weps), wh);
        check_near("mean" + k, mean(a), m.mean, tol_mean(m, eps), wh);
        check_near("weighted_mean" + k, weighted_mean(a), m.mean, tol_mean(m, eps), wh);
        check_near("mean(immediate)" + k, mean(b), m.mean, tol_mean(m, eps), wh);
        check_near("moment2" + k, moment<2>(a), m.raw[2], tol_moment(m, 2, eps) * 2, wh);
        check_near("weighted_moment2" + k, weighted_moment<2>(d), m.raw[2], tol_moment(m, 2, eps) * 2, wh);
        check_near("variance(lazy)" + k, variance(a), m.var(), 2 * tol_var(m, eps), wh);
        check_near("weighted_variance(lazy)" + k, extract_result<tag::weighted_variance>(d), m.var(), 2 * tol_var(m, eps), wh);
        check_near("variance(immediate)" + k, variance(b), m.var(), 2 * tol_var(m, eps), wh);
        check_near("weighted_variance(immediate)" + k, weighted_variance(e), m.var(), 2 * tol_var(m, eps), wh);
        if (higher)
        {
            check_near("weighted_moment3" + k, weighted_moment<3>(c), m.raw[3], tol_moment(m, 3, eps) * 2, wh);
            check_near("mean_of_weights(immediate)" + k, mean_of_weights(c), mw.mean, tol_mean(mw, weps), wh);
            check_skew("weighted_skewness" + k, weighted_skewness(c), m, 2 * eps, wh);
            check_kurt("weighted_kurtosis" + k, weighted_kurtosis(c), m, 2 * eps, wh);
            check_skew("skewness" + k, skewness(f), m, 2 * eps, wh);
            check_kurt("kurtosis" + k, kurtosis(f), m, 2 * eps, wh);
        }
    }
    count_event("pairs pushed " + name, n);
    if (n > 1) show(name + " x=" + str_seq(x, 4) + " w=" + str_seq(w, 4) + " -> mean " + str(mean(a)) + " var " + str(variance(b)));
}
#if PART == 1
SCENARIO(double_double, 1500) { typed<double, double>(r, "double/double", 0, r.chance(.1) ? 3000 : 200, 1e6, true); }
SCENARIO(long_streams, 8) { typed<double, double>(r, "double/double/long", 0, 90000, 1e3, true); }
#elif PART == 5
SCENARIO(int_int, 600) { typed<int, int>(r, "int/int", 20, 25, 0, true); }
#elif PART == 2
SCENARIO(double_int, 600) { typed<double, int>(r, "double/int", 0, 200, 0, true); }
#elif PART == 6
SCENARIO(int_double, 600) { typed<int, double>(r, "int/double", 50, 200, 1e4, true); }
#elif PART == 3
SCENARIO(float_float, 400) { typed<float, float>(r, "float/float", 20, 150, 50, true); }
#elif PART == 7
SCENARIO(longlong_longlong, 300) { typed<long long, long long>(r, "longlong/longlong", 500, 150, 0, true); }
#elif PART == 8
SCENARIO(ldouble_double, 300) { typed<long double, double>(r, "longdouble/double", 0, 200, 1e6, true); }
#endif
#else
// ---- variates and metamorphic relations
typedef tag::weighted_sum_of_variates<double, tag::covariate1> WS;
SCENARIO(variates, 800)
{
    std::size_t n = r.below(120);
    std::vector<double> x = gen(r, n, (int)r.below(NKINDS)), y = gen(r, n, (int)r.below(NKINDS)), w = gen_weights(r, n, false, 1e4);
    sig_stream(x); sig_stream(y); sig_stream(w); nontrivial(n >= 2);
    accumulator_set<double, stats<tag::weighted_sum_of_variates<double, tag::covariate1> >, double> a;
    accumulator_set<double, stats<tag::mean_of_variates<double, tag::covariate1> >, double> b;
    accumulator_set<double, stats<tag::mean_of_variates<double, tag::covariate2>(immediate), tag::mean>, double> c;
    accumulator_set<double, stats<tag::weighted_mean_of_variates<double, tag::covariate1>(lazy), tag::sum>, double> d;
    accumulator_set<double, stats<tag::weighted_mean_of_variates<double, tag::covariate2>(immediate)>, double> e;
    accumulator_set<double, stats<tag::mean_of_variates<double, tag::covariate1> > > u;
    accumulator_set<double, stats<tag::mean_of_variates<double, tag::covariate1>(immediate), tag::sum_of_variates<double, tag::covariate1> > > v;
    ld eps = std::numeric_limits<double>::epsilon(); Schedule s(r, n);
    for (std::size_t i = 0; i < n; ++i)
    {
        a(x[i], weight = w[i], covariate1 = y[i]); b(x[i], weight = w[i], covariate1 = y[i]);
        c(x[i], covariate2 = y[i], weight = w[i]); d(x[i], weight = w[i], covariate1 = y[i]); e(x[i], weight = w[i], covariate2 = y[i]);
        u(x[i], covariate1 = y[i]); v(x[i], covariate1 = y[i]);
        if (!s.at(r, i + 1)) continue;
        Moments my = wmoments(y, w, i + 1), mx = wmoments(x, w, i + 1), uy = moments(y, i + 1);
        std::string wh = "y=" + str_seq(y, 4) + " w=" + str_seq(w, 4) + " prefix " + str(i + 1);
        check_near("weighted_sum_of_variates", weighted_sum_of_variates(a), my.sum, tol_sum(my, eps), wh);
        check_near("mean_of_variates:w", extract_result<tag::mean_of_variates<double, tag::covariate1> >(b), my.mean, tol_mean(my, eps), wh);
        check_near("mean_of_variates(immediate):w", extract_result<tag::mean_of_variates<double, tag::covariate2>(immediate)>(c), my.mean, tol_mean(my, eps), wh);
        check_near("weighted_mean_of_variates(lazy)", extract_result<tag::weighted_mean_of_variates<double, tag::covariate1> >(d), my.mean, tol_mean(my, eps), wh);
        check_near("weighted_mean_of_variates(immediate)", extract_result<tag::immediate_weighted_mean_of_variates<double, tag::covariate2> >(e), my.mean, tol_mean(my, eps), wh);
        check_near("mean beside variates", mean(c), mx.mean, tol_mean(mx, eps), wh);
        check_near("sum beside variates", sum(d), mx.sum, tol_sum(mx, eps), wh);
        check_near("mean_of_variates", extract_result<tag::mean_of_variates<double, tag::covariate1> >(u), uy.mean, tol_mean(uy, eps), wh);
        check_near("mean_of_variates(immediate)", extract_result<tag::mean_of_variates<double, tag::covariate1>(immediate)>(v), uy.mean, tol_mean(uy, eps), wh);
        check_near("sum_of_variates", sum_of_variates(v), uy.sum, tol_sum(uy, eps), wh);
    }
}
// integer weights k mean the same as k repetitions; unit weights mean unweighted; scaling all weights changes nothing
SCENARIO(repetition, 600)
{
    std::size_t n = 1 + r.below(60); std::vector<double> x = gen(r, n, (int)r.below(NKINDS));
    double scale = std::exp(3 * r.normal());
    typedef stats<tag::mean, tag::lazy_variance, tag::skewness, tag::kurtosis, tag::moment<3> > F;
    typedef stats<tag::immediate_mean, tag::variance> G;
    accumulator_set<double, F, double> a, as; accumulator_set<double, F> u; accumulator_set<double, F, int> ai, a1; accumulator_set<double, F> u1;
    accumulator_set<double, G, int> g; accumulator_set<double, G> gu; accumulator_set<double, G, double> gs;
    std::vector<double> rep; sig_stream(x); nontrivial(n >= 2);
    ld eps = std::numeric_limits<double>::epsilon();
    for (std::size_t i = 0; i < n; ++i)
    {
        int k = (int)r.range(1, 4); sig((std::uint64_t)k);
        a(x[i], weight = (double)k); as(x[i], weight = scale * k); ai(x[i], weight = k); g(x[i], weight = k); gs(x[i], weight = scale * k);
        for (int j = 0; j < k; ++j) { u(x[i]); gu(x[i]); rep.push_back(x[i]); }
        a1(x[i], weight = 1); u1(x[i]);
        Moments m = moments(rep, rep.size()); Moments m1 = moments(x, i + 1);
        check_near("repeat:mean", mean(a), mean(u), 2 * tol_mean(m, eps)); check_near("repeat:mean:int", mean(ai), mean(u), 2 * tol_mean(m, eps));
        check_near("scale:mean", mean(as), mean(u), 2 * tol_mean(m, eps)); check_near("repeat:mean(immediate)", mean(g), mean(gu), 2 * tol_mean(m, eps));
        check_near("repeat:variance(lazy)", variance(a), variance(u), 3 * tol_var(m, eps)); check_near("scale:variance(lazy)", variance(as), variance(u), 3 * tol_var(m, eps));
        check_near("repeat:variance(immediate)", variance(g), variance(gu), 3 * tol_var(m, eps)); check_near("scale:variance(immediate)", variance(gs), variance(gu), 3 * tol_var(m, eps));
        check_near("repeat:moment3", moment<3>(ai), moment<3>(u), 4 * tol_moment(m, 3, eps));
        check_near("unit:mean", mean(a1), mean(u1), 2 * tol_mean(m1, eps)); check_near("unit:variance", variance(a1), variance(u1), 3 * tol_var(m1, eps));
        check_skew("repeat:skewness", skewness(as), m, 4 * eps, ""); check_kurt("repeat:kurtosis", kurtosis(ai), m, 4 * eps, "");
        check_skew("unit:skewness", skewness(a1), m1, 4 * eps, "");
    }
    show(str_seq(x, 6) + " repeated 1..4 times");
}
#endif
