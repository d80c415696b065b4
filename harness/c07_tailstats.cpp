// C07: tail quantiles and tail means against their order-statistic definitions.
#include <boost/accumulators/numeric/functional/vector.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include "tails.hpp"
using namespace boost::accumulators;
using namespace vf;
typedef std::vector<double> V;

struct Value { bool thrown; ld v; };
template<class F> static Value get(F f) { try { return Value{false, (ld)f()}; } catch (std::runtime_error const &) { return Value{true, 0}; } }
template<class F> static std::vector<double> getv(F f, bool &thrown) { thrown = false; try { auto rg = f(); return std::vector<double>(rg.begin(), rg.end()); } catch (std::runtime_error const &) { thrown = true; return {}; } }

static double gen_p(Rng &r)
{
    switch (r.below(5))
    {
    case 0: return (double)r.below(257) / 256;       // exact products
    case 1: return (double)r.below(17) / 16;
    case 2: return r.chance(.5) ? 0.0 : 1.0;
    default: return r.uni();
    }
}
// candidate ranks ceil(cnt*alpha): two when rounding may decide
static std::vector<std::size_t> ranks(std::size_t cnt, double p, bool lf)
{
    ld t = (ld)cnt * (lf ? (ld)p : 1 - (ld)p), k = std::floor(t + .5L);
    if (t == k) { double d = p * 65536; if (d == std::floor(d)) return {(std::size_t)k}; }
    if (std::fabs(t - k) < 1e-12L * (cnt + 1)) return {(std::size_t)k, (std::size_t)k + 1};
    return {(std::size_t)std::ceil(t)};
}
// a comparison that any of the candidate answers satisfies
struct Cand { bool nan; ld v, tol; };
static void one_of(std::string const &key, Value got, std::vector<Cand> const &c, bool throws, std::string const &wh)
{
    observed();
    std::string want;
    for (Cand const &k : c)
    {
        if (k.nan ? (throws ? got.thrown : (!got.thrown && std::isnan(got.v))) : (!got.thrown && near(got.v, k.v, k.tol))) return;
        want += (k.nan ? (throws ? "exception" : "NaN") : str(k.v) + "+-" + str(k.tol)) + " ";
    }
    fail(key, "got " + (got.thrown ? std::string("exception") : str(got.v)) + " want " + want + wh);
}
#if PART <= 2
template<class S, class LR> static void plain(Rng &r, std::string const &name)
{
    bool const lf = std::is_same<LR, left>::value, integral = std::is_integral<S>::value;
    std::size_t n = gen_len(r, 500), c = gen_cache(r, n), nv = 1 + r.below(3);
    bool distinct = r.chance(.7);
    std::vector<S> x = tail_stream<S>(r, n, distinct); std::vector<V> y(n);
    if (r.chance(.4)) for (S &v : x) v = (S)(v + 1000000);                     // away from zero: relative means well conditioned
    if (distinct) { std::set<S> u(x.begin(), x.end()); distinct = u.size() == n; }
    for (V &v : y) for (std::size_t j = 0; j < nv; ++j) v.push_back(std::floor(r.normal() * 50));
    accumulator_set<S, stats<tag::tail_quantile<LR> > > a(tag::tail<LR>::cache_size = c);
    accumulator_set<S, stats<tag::non_coherent_tail_mean<LR> > > b(tag::tail<LR>::cache_size = c);
    accumulator_set<S, stats<tag::coherent_tail_mean<LR>, tag::tail_quantile<LR> > > d(tag::tail<LR>::cache_size = c);
    accumulator_set<S, stats<tag::tail_variate_means<LR, V, tag::covariate1>(absolute)> > e(tag::tail<LR>::cache_size = c);
    accumulator_set<S, stats<tag::tail_variate_means<LR, V, tag::covariate1>(relative)> > f(tag::tail<LR>::cache_size = c);
    Schedule s(r, n); std::size_t i = 0;
    auto look = [&](double p)
    {
        std::vector<std::size_t> idx(i); for (std::size_t k = 0; k < i; ++k) idx[k] = k;
        std::stable_sort(idx.begin(), idx.end(), [&](std::size_t u, std::size_t v) { return lf ? x[u] < x[v] : x[u] > x[v]; });
        std::size_t m = std::min(i, c); ld al = lf ? (ld)p : 1 - (ld)p, A = 0;
        for (std::size_t k = 0; k < i; ++k) A = std::max(A, (ld)std::fabs((ld)x[k]));
        std::string wh = name + " cache " + std::to_string(c) + " p " + str(p) + " after " + std::to_string(i) + " of " + str_seq(x);
        std::vector<Cand> q, nc, co; std::vector<std::vector<Cand> > am(nv), rm(nv);
        bool tie_ok = distinct, illcond = false;
        std::vector<V> tv;
        if (!tie_ok) { auto rg = tail_variate(e); tv.assign(rg.begin(), rg.end()); if (tv.size() != m) { fail("tail_variate:size", wh); return; } }
        for (std::size_t k : ranks(i, p, lf))
        {
            bool bad = k == 0 || k > m;
            ld sum = 0; std::vector<ld> vs(nv, 0);
            if (!bad) for (std::size_t z = 0; z < k; ++z) { sum += (ld)x[idx[z]]; for (std::size_t j = 0; j < nv; ++j) vs[j] += tie_ok ? y[idx[z]][j] : tv[z][j]; }
            ld eps = integral ? 2.3e-16L : (ld)std::numeric_limits<S>::epsilon(), mean = bad ? 0 : sum / k, tm = (k + 4) * eps * A;
            ld qv = bad ? 0 : (ld)x[idx[k - 1]];
            q.push_back(Cand{bad, qv, 0});
            nc.push_back(Cand{bad, mean, tm});
            co.push_back(Cand{bad, bad ? 0 : mean + qv / k * (al - (ld)k / i), tm + 8 * eps * A});
            for (std::size_t j = 0; j < nv; ++j)
            {
                am[j].push_back(Cand{bad, bad ? 0 : vs[j] / k, 1e-12L * 1000});
                rm[j].push_back(Cand{bad, bad ? 0 : vs[j] / k / mean, bad ? 0 : std::fabs(vs[j] / k / mean) * (2 * tm / std::fabs(mean) + 8 * eps) });
            }
            if (!bad && !(std::fabs(mean) > 100 * tm)) illcond = true;
        }
        one_of("tail_quantile", get([&] { return quantile(a, quantile_probability = p); }), q, integral, wh);
        one_of("tail_quantile:beside tail mean", get([&] { return tail_quantile(d, quantile_probability = p); }), q, integral, wh);
        one_of("non_coherent_tail_mean", get([&] { return non_coherent_tail_mean(b, quantile_probability = p); }), nc, false, wh);
        one_of("non_coherent_tail_mean:beside", get([&] { return non_coherent_tail_mean(d, quantile_probability = p); }), nc, false, wh);
        one_of("coherent_tail_mean", get([&] { return tail_mean(d, quantile_probability = p); }), co, integral, wh);
        bool t1, t2;
        std::vector<double> g = getv([&] { return tail_variate_means(e, quantile_probability = p); }, t1), h = getv([&] { return relative_tail_variate_means(f, quantile_probability = p); }, t2);
        if (i == 0) { check_true("tail_variate_means:empty", g.empty() && h.empty() && !t1 && !t2, wh); return; }
        check_true("tail_variate_means:size", g.size() == nv && h.size() == nv, wh);
        if (g.size() == nv) for (std::size_t j = 0; j < nv; ++j) one_of("tail_variate_means(absolute)", Value{t1, g[j]}, am[j], false, wh);
        if (illcond) inconclusive("relative mean divides by almost zero");
        else if (h.size() == nv && tie_ok) for (std::size_t j = 0; j < nv; ++j) one_of("tail_variate_means(relative)", Value{t2, h[j]}, rm[j], false, wh);
    };
    for (double p : {0.0, 1.0, 0.5}) look(p);
    for (i = 0; i < n;)
    {
        S v = x[i]; V w = y[i];
        a(v); b(v); d(v); e(v, covariate1 = w); f(v, covariate1 = w); ++i;
        if (s.at(r, i)) for (int k = 0; k < 3; ++k)
        {
            double p = gen_p(r);
            if (k == 0 && i >= c) { double al = ((double)c + (r.chance(.5) ? 0 : r.chance(.5) ? .5 : -.5)) / i; if (al <= 1) p = lf ? al : 1 - al; }   // at the edge of the cache
            look(p);
        }
    }
    for (S v : x) sig((double)v); sig((std::uint64_t)c); sig(hash_str(name)); nontrivial(n >= 2);
    show(name + " cache " + std::to_string(c) + " x=" + str_seq(x, 6));
}
#endif
#if PART >= 3
template<class S, class W, class LR> static void with_weights(Rng &r, std::string const &name)
{
    bool const lf = std::is_same<LR, left>::value, integral = std::is_integral<S>::value, wint = std::is_integral<W>::value;
    std::size_t n = gen_len(r, 300), c = gen_cache(r, n), nv = 1 + r.below(3);
    std::vector<S> x = tail_stream<S>(r, n, true); std::vector<V> y(n); std::vector<W> w(n);
    if (r.chance(.4)) for (S &v : x) v = (S)(v + 1000000);
    { std::set<S> u(x.begin(), x.end()); if (u.size() != n) { inconclusive("ties"); return; } }
    for (V &v : y) for (std::size_t j = 0; j < nv; ++j) v.push_back(std::floor(r.normal() * 50));
    bool frac = !wint && r.chance(.5);
    for (W &v : w) v = frac ? (W)(r.uni_open() * 3) : (W)r.range(1, 8);
    accumulator_set<S, stats<tag::weighted_tail_quantile<LR> >, W> a(tag::tail<LR>::cache_size = c);
    accumulator_set<S, stats<tag::tail_quantile<LR>, tag::non_coherent_tail_mean<LR> >, W> b(tag::tail<LR>::cache_size = c);     // substituted
    accumulator_set<S, stats<tag::non_coherent_weighted_tail_mean<LR> >, W> d(tag::tail<LR>::cache_size = c);
    accumulator_set<S, stats<tag::weighted_tail_variate_means<LR, V, tag::covariate1>(absolute)>, W> e(tag::tail<LR>::cache_size = c);
    accumulator_set<S, stats<tag::weighted_tail_variate_means<LR, V, tag::covariate1>(relative)>, W> f(tag::tail<LR>::cache_size = c);
    Schedule s(r, n); std::size_t i = 0; ld total = 0;
    auto look = [&](double p)
    {
        std::vector<std::size_t> idx(i); for (std::size_t k = 0; k < i; ++k) idx[k] = k;
        std::sort(idx.begin(), idx.end(), [&](std::size_t u, std::size_t v) { return lf ? x[u] < x[v] : x[u] > x[v]; });
        std::size_t m = std::min(i, c), k = 0; ld al = lf ? (ld)p : 1 - (ld)p, A = 0, thr = total * al, sw = 0, swx = 0; std::vector<ld> vs(nv, 0);
        for (std::size_t z = 0; z < i; ++z) A = std::max(A, (ld)std::fabs((ld)x[z]));
        std::string wh = name + " cache " + std::to_string(c) + " p " + str(p) + " after " + std::to_string(i) + " of x=" + str_seq(x) + " w=" + str_seq(w);
        double d16 = p * 65536; bool exact = !frac && d16 == std::floor(d16), close = false, bad = false;
        for (;;)
        {
            if (!exact && thr > 0 && std::fabs(sw - thr) < 1e-9L * total) close = true;
            if (!(sw < thr)) break;
            if (k == m) { bad = true; break; }
            ld wi = (ld)w[idx[k]], xi = (ld)x[idx[k]]; sw += wi; swx += wi * xi;
            for (std::size_t j = 0; j < nv; ++j) vs[j] += wi * y[idx[k]][j];
            ++k;
        }
        if (close) { inconclusive("weight threshold within rounding"); return; }
        if (k == 0) bad = true;
        ld mean = bad ? 0 : swx / sw, tm = (k + 4) * 4.5e-16L * A * 4;
        std::vector<Cand> q(1, Cand{bad, bad ? 0 : (ld)x[idx[k - 1]], 0}), nc(1, Cand{bad, mean, tm});
        one_of("weighted_tail_quantile", get([&] { return weighted_tail_quantile(a, quantile_probability = p); }), q, integral, wh);
        one_of("tail_quantile:weighted set", get([&] { return quantile(b, quantile_probability = p); }), q, integral, wh);
        one_of("non_coherent_weighted_tail_mean", get([&] { return non_coherent_weighted_tail_mean(d, quantile_probability = p); }), nc, false, wh);
        one_of("non_coherent_tail_mean:weighted set", get([&] { return non_coherent_tail_mean(b, quantile_probability = p); }), nc, false, wh);
        bool t1, t2;
        std::vector<double> g = getv([&] { return weighted_tail_variate_means(e, quantile_probability = p); }, t1), h = getv([&] { return relative_weighted_tail_variate_means(f, quantile_probability = p); }, t2);
        if (i == 0) { check_true("weighted_tail_variate_means:empty", g.empty() && h.empty() && !t1 && !t2, wh); return; }
        check_true("weighted_tail_variate_means:size", g.size() == nv && h.size() == nv, wh);
        if (g.size() != nv || h.size() != nv) return;
        for (std::size_t j = 0; j < nv; ++j)
        {
            one_of("weighted_tail_variate_means(absolute)", Value{t1, g[j]}, {Cand{bad, bad ? 0 : vs[j] / sw, 1e-9L}}, false, wh);
            if (bad || std::fabs(mean) > 100 * tm)
                one_of("weighted_tail_variate_means(relative)", Value{t2, h[j]}, {Cand{bad, bad ? 0 : vs[j] / sw / mean, bad ? 0 : (std::fabs(vs[j] / sw) + 1) / std::fabs(mean) * (2 * tm / std::fabs(mean) + (k + 8) * 1e-15L) }}, false, wh);
            else inconclusive("relative mean divides by almost zero");
        }
    };
    for (double p : {0.0, 1.0, 0.5}) look(p);
    for (i = 0; i < n;)
    {
        S v = x[i]; V z = y[i]; W u = w[i];
        a(v, weight = u); b(v, weight = u); d(v, weight = u); e(v, weight = u, covariate1 = z); f(v, weight = u, covariate1 = z);
        total += (ld)u; ++i;
        if (s.at(r, i)) for (int k = 0; k < 3; ++k) look(gen_p(r));
    }
    for (std::size_t k = 0; k < n; ++k) { sig((double)x[k]); sig((double)w[k]); } sig((std::uint64_t)c); sig(hash_str(name)); nontrivial(n >= 2);
    show(name + " cache " + std::to_string(c) + " x=" + str_seq(x, 6) + " w=" + str_seq(w, 6));
}
#endif
#if PART == 1
SCENARIO(left_double, 500) { plain<double, left>(r, "left<double>"); }
SCENARIO(left_long, 6) { LongCase l; plain<double, left>(r, "left<double>"); }
SCENARIO(left_int, 300) { plain<int, left>(r, "left<int>"); }
#elif PART == 2
SCENARIO(right_double, 500) { plain<double, right>(r, "right<double>"); }
SCENARIO(right_long, 6) { LongCase l; plain<double, right>(r, "right<double>"); }
SCENARIO(right_int_long, 4) { LongCase l; plain<int, right>(r, "right<int>"); }
SCENARIO(right_int, 300) { plain<int, right>(r, "right<int>"); }
#elif PART == 3
SCENARIO(wleft_double_double, 400) { with_weights<double, double, left>(r, "left<double,double>"); }
SCENARIO(wright_long, 6) { LongCase l; with_weights<double, double, right>(r, "right<double,double>"); }
SCENARIO(wright_double_double, 400) { with_weights<double, double, right>(r, "right<double,double>"); }
#elif PART == 4
SCENARIO(wleft_int_long, 4) { LongCase l; with_weights<double, int, left>(r, "left<double,int>"); }
SCENARIO(wleft_double_int, 300) { with_weights<double, int, left>(r, "left<double,int>"); }
SCENARIO(wright_double_int, 300) { with_weights<double, int, right>(r, "right<double,int>"); }
#elif PART == 5
SCENARIO(wleft_int_double, 300) { with_weights<int, double, left>(r, "left<int,double>"); }
SCENARIO(wright_int_double, 300) { with_weights<int, double, right>(r, "right<int,double>"); }
#endif
