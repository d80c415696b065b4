// C04: compensated sums.  Oracle: exact-enough (113-bit) sum of the history;
// bound of compensated summation: eps*sum|x| + O(n eps^2) sum|x|.
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include "ref.hpp"
using namespace boost::accumulators;
using namespace vf;
typedef __float128 q;
static q qabs(q x) { return x < 0 ? -x : x; }

// Streams on which plain summation visibly loses digits.
template<class T> static std::vector<T> hostile(Rng &r, std::size_t n, int mode, double span)
{
    T eps = std::numeric_limits<T>::epsilon();
    std::vector<T> v(n);
    T big = (T)std::ldexp(1.0, (int)r.range(0, 30)), frac = (T)(eps * (T)(0.2 + r.uni()));
    for (std::size_t i = 0; i < n; ++i)
        switch (mode)
        {
        case 0: v[i] = i == 0 ? big : big * frac; break;                             // one large, many below half an ulp
        case 1: v[i] = (T)((r.chance(.5) ? 1 : -1) * std::pow(10.0, span * (r.uni() - .5))); break;
        case 2: v[i] = (i & 1) ? (T)1e-3 * (T)r.uni() : (T)((i & 2) ? 1e5 : -1e5) * (T)(1 + r.uni()); break;
        case 3: v[i] = (T)0.1; break;
        case 4: v[i] = (T)(1.0 / (double)(i + 1)); break;
        case 5: v[i] = (T)(r.uni() * 2 - 1); break;
        case 6: v[i] = i + 1 == n ? big : big * frac; break;
        default: v[i] = (T)r.normal() + (T)1000; break;
        }
    if (mode == 1 && r.chance(.5)) for (std::size_t i = 1; i < n; i += 2) v[i] = -v[i - 1];   // cancels to zero
    if (r.chance(.2)) std::reverse(v.begin(), v.end());
    return v;
}
template<class T> static void bounded(std::string const &key, T got, q exact, q sumabs, std::size_t n, double roundings, std::string const &where)
{
    q eps = std::numeric_limits<T>::epsilon();
    q tol = (q)roundings * eps * sumabs + (q)8 * (q)n * eps * eps * sumabs + (q)std::numeric_limits<T>::denorm_min() * (q)n;
    q d = qabs((q)got - exact);
    observed();
    if (!(d <= tol)) fail(key, "off by " + str((ld)d) + " allowed " + str((ld)tol) + " got " + str(got) + " exact " + str((ld)exact) + " " + where);
}
template<class T> static void typed(Rng &r, std::string const &name, std::size_t maxn, double span)
{
    std::size_t n = r.chance(.1) ? r.below(4) : r.chance(.05) ? maxn : r.below(std::min<std::size_t>(maxn, 3000));
    int mode = (int)r.below(8);
    std::vector<T> x = hostile<T>(r, n, mode, span), y = hostile<T>(r, n, (int)r.below(8), span / 2), w = hostile<T>(r, n, (int)r.below(8), span / 4), c = hostile<T>(r, n, (int)r.below(8), span / 2);
    for (T &k : w) { k = k < 0 ? -k : k; if (k == 0) k = 1; }
    accumulator_set<T, stats<tag::sum_kahan> > a;
    accumulator_set<T, stats<tag::sum(kahan), tag::count> > a2;
    accumulator_set<T, stats<tag::sum_of_variates_kahan<T, tag::covariate1> > > b;
    accumulator_set<T, stats<tag::sum_kahan, tag::sum_of_weights_kahan>, T> d;            // weighted substitution
    accumulator_set<T, stats<tag::weighted_sum_kahan>, T> e;
    accumulator_set<T, stats<tag::weighted_sum_of_variates_kahan<T, tag::covariate2>, tag::sum_of_weights(kahan)>, T> f;
    accumulator_set<T, stats<tag::sum_kahan, tag::mean> > g;
    q sx = 0, ax = 0, sy = 0, ay = 0, sw = 0, sxw = 0, axw = 0, scw = 0, acw = 0;
    Schedule s(r, n); std::size_t i = 0;
    auto look = [&]
    {
        std::string wh = name + " mode " + std::to_string(mode) + " after " + std::to_string(i) + " of " + std::to_string(n);
        bounded<T>("sum_kahan", sum_kahan(a), sx, ax, i, 1.1, wh);
        bounded<T>("sum(kahan)", sum(a2), sx, ax, i, 1.1, wh);
        bounded<T>("sum_of_variates_kahan", sum_of_variates_kahan(b), sy, ay, i, 1.1, wh);
        bounded<T>("sum_of_weights_kahan", sum_of_weights_kahan(d), sw, sw, i, 1.1, wh);
        bounded<T>("sum_of_weights(kahan)", sum_of_weights(f), sw, sw, i, 1.1, wh);
        bounded<T>("weighted sum_kahan", sum_kahan(d), sxw, axw, i, 1.7, wh);
        bounded<T>("weighted_sum_kahan", weighted_sum_kahan(e), sxw, axw, i, 1.7, wh);
        bounded<T>("weighted_sum_of_variates_kahan", weighted_sum_of_variates_kahan(f), scw, acw, i, 1.7, wh);
        bounded<T>("sum_kahan beside mean", sum_kahan(g), sx, ax, i, 1.1, wh);
        if (i) bounded<T>("mean over sum_kahan", mean(g), sx / (q)i, ax / (q)i, i, 1.7, wh);
    };
    look();
    for (i = 0; i < n;)
    {
        T xi = x[i], yi = y[i], wi = w[i], ci = c[i];
        a(xi); a2(xi); g(xi);
        b(xi, covariate1 = yi);
        d(xi, weight = wi); e(xi, weight = wi); f(xi, weight = wi, covariate2 = ci);
        sx += xi; ax += qabs(xi); sy += yi; ay += qabs(yi); sw += wi;
        sxw += (q)xi * wi; axw += qabs((q)xi * wi); scw += (q)ci * wi; acw += qabs((q)ci * wi);
        ++i;
        if (s.at(r, i)) look();
    }
    for (std::size_t k = 0; k < n; ++k) { sig((double)x[k]); sig((double)w[k]); }
    sig(hash_str(name)); nontrivial(n >= 2);
    count_event("pushes", 7 * n);
    show(name + " mode " + std::to_string(mode) + " n=" + std::to_string(n) + " x=" + str_seq(std::vector<double>(x.begin(), x.end()), 5) + " sum_kahan=" + str(sum_kahan(a)));
}
SCENARIO(kahan_double, 1200) { typed<double>(r, "double", 100000, 40); }
SCENARIO(kahan_float, 1200) { typed<float>(r, "float", 60000, 12); }
SCENARIO(kahan_long_double, 200) { typed<long double>(r, "long double", 20000, 40); }
