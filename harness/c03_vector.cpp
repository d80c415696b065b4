// C03: covariance and vector-, array- and complex-valued samples.
#include <boost/accumulators/numeric/functional/vector.hpp>
#include <boost/accumulators/numeric/functional/valarray.hpp>
#include <boost/accumulators/numeric/functional/complex.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include "ref.hpp"
using namespace boost::accumulators;
using namespace vf;
typedef std::vector<double> V;
typedef std::valarray<double> A;
static const ld EPS = std::numeric_limits<double>::epsilon();

static ld cov_ref(std::vector<double> const &x, std::vector<double> const &y, std::vector<double> const &w, std::size_t n, ld &tol)
{
    Moments mx = wmoments(x, w, n), my = wmoments(y, w, n);
    ld c = 0; for (std::size_t i = 0; i < n; ++i) c += (ld)w[i] * (x[i] - mx.mean) * (y[i] - my.mean);
    tol = 40 * (n + 8) * EPS * mx.A * my.A;
    return c / mx.W;
}
static std::size_t len(Rng &r, std::size_t m) { return long_case() ? long_len(r) : r.chance(.04) ? r.below(1500) : r.below(m); }
static std::size_t dims(Rng &r) { return long_case() ? 2 : r.chance(.85) ? 1 + r.below(4) : 1 + r.below(20); }
static std::vector<double> pos_weights(Rng &r, std::size_t n, bool wide = false)
{
    std::vector<double> w(n); int mode = (int)r.below(wide ? 6 : 4);
    for (auto &x : w) x = mode == 4 ? std::exp(24 * r.uni() - 12) : mode == 5 ? (&x != &w[0] && r.chance(.3) ? 0. : .01 + r.uni()) : mode == 0 ? 1 : mode == 1 ? (double)r.range(1, 4) : mode == 2 ? .01 + r.uni() : std::exp(4 * r.uni());
    return w;
}
static std::vector<std::vector<double> > gen_cols(Rng &r, std::size_t n, std::size_t d)
{
    std::vector<std::vector<double> > c; for (std::size_t k = 0; k < d; ++k) c.push_back(gen(r, n, (int)r.below(NKINDS)));
    return c;
}
static V row(std::vector<std::vector<double> > const &c, std::size_t i) { V v; for (auto &k : c) v.push_back(k[i]); return v; }

#if PART == 1
SCENARIO(scalar_covariance, 900)
{
    std::size_t n = gen_len(r, 600);
    std::vector<double> x = gen(r, n, (int)r.below(NKINDS)), y = gen(r, n, (int)r.below(NKINDS)), w = pos_weights(r, n, true), one(n, 1.0);
    if (r.chance(.2)) for (std::size_t i = 0; i < n; ++i) y[i] = -2 * x[i] + .1 * r.normal();
    sig_stream(x); sig_stream(y); sig_stream(w); nontrivial(n >= 2);
    accumulator_set<double, stats<tag::covariance<double, tag::covariate1> > > a;
    accumulator_set<double, stats<tag::covariance<double, tag::covariate2>, tag::variance, tag::mean> > b;
    accumulator_set<double, stats<tag::covariance<double, tag::covariate1> >, double> c;
    accumulator_set<double, stats<tag::weighted_covariance<double, tag::covariate2> >, double> d;
    Schedule s(r, n);
    for (std::size_t i = 0; i < n; ++i)
    {
        a(x[i], covariate1 = y[i]); b(x[i], covariate2 = y[i]); c(x[i], covariate1 = y[i], weight = w[i]); d(x[i], weight = w[i], covariate2 = y[i]);
        if (!s.at(r, i + 1)) continue;
        ld t, e = cov_ref(x, y, one, i + 1, t); std::string wh = str_seq(x, 4) + str_seq(y, 4) + " prefix " + str(i + 1);
        check_near("covariance", covariance(a), e, t, wh); check_near("covariance:covariate2", covariance(b), e, t, wh);
        e = cov_ref(x, y, w, i + 1, t);
        check_near("covariance:weighted", covariance(c), e, 2 * t, wh); check_near("weighted_covariance", weighted_covariance(d), e, 2 * t, wh);
        Moments m = moments(x, i + 1); check_near("mean beside covariance", mean(b), m.mean, tol_mean(m, EPS), wh); check_var("variance beside covariance", variance(b), m, EPS, wh);
    }
    if (n > 1) show(str_seq(x, 4) + " vs " + str_seq(y, 4) + " -> cov " + str(covariance(a)));
}
SCENARIO(int_covariance, 300)
{
    std::size_t n = len(r, 60); std::vector<double> x, y, one(n, 1.0);
    accumulator_set<int, stats<tag::covariance<int, tag::covariate1> > > a; accumulator_set<int, stats<tag::covariance<double, tag::covariate1> >, int> b;
    std::vector<double> w;
    for (std::size_t i = 0; i < n; ++i)
    {
        int u = (int)r.range(-100, 100), v = (int)r.range(-5, 100), k = (int)r.range(1, 4); x.push_back(u); y.push_back(v); w.push_back(k);
        a(u, covariate1 = v); b(u, covariate1 = (double)v, weight = k);
        ld t, e = cov_ref(x, y, one, i + 1, t); check_near("covariance:int", covariance(a), e, t, str_seq(x) + str_seq(y));
        e = cov_ref(x, y, w, i + 1, t); check_near("covariance:int:weighted", covariance(b), e, 2 * t, str_seq(x) + str_seq(y));
    }
    sig_stream(x); sig_stream(y); nontrivial(n >= 2);
}
#elif PART == 2
SCENARIO(mixed_covariance, 400)      // vector x scalar, scalar x vector
{
    std::size_t n = len(r, 80), d = dims(r);
    auto cols = gen_cols(r, n, d); std::vector<double> y = gen(r, n, (int)r.below(NKINDS)), one(n, 1.0), w = pos_weights(r, n, true);
    for (auto &c : cols) sig_stream(c); sig_stream(y); nontrivial(n >= 2);
    V zero(d, 0.0);
    accumulator_set<V, stats<tag::covariance<double, tag::covariate1> > > a(sample = zero);
    accumulator_set<double, stats<tag::covariance<V, tag::covariate1> > > b(covariate1 = zero);
    accumulator_set<double, stats<tag::weighted_covariance<V, tag::covariate1> >, double> c(covariate1 = zero);
    Schedule s(r, n);
    for (std::size_t i = 0; i < n; ++i)
    {
        a(row(cols, i), covariate1 = y[i]); b(y[i], covariate1 = row(cols, i)); c(y[i], weight = w[i], covariate1 = row(cols, i));
        if (!s.at(r, i + 1)) continue;
        V ca = covariance(a), cb = covariance(b), cc = covariance(c);
        if (!check_true("covariance:size", ca.size() == d && cb.size() == d && cc.size() == d, str(ca.size()))) return;
        for (std::size_t k = 0; k < d; ++k)
        {
            ld t, e = cov_ref(cols[k], y, one, i + 1, t); check_near("covariance:vector-scalar", ca[k], e, t); check_near("covariance:scalar-vector", cb[k], e, t);
            e = cov_ref(cols[k], y, w, i + 1, t); check_near("weighted_covariance:scalar-vector", cc[k], e, 2 * t);
        }
    }
}
#elif PART == 3
SCENARIO(matrix_covariance, 500)
{
    std::size_t n = len(r, 60), d = dims(r), e = dims(r);
    auto X = gen_cols(r, n, d), Y = gen_cols(r, n, e); std::vector<double> one(n, 1.0), w = pos_weights(r, n, true);
    for (auto &c : X) sig_stream(c); for (auto &c : Y) sig_stream(c); nontrivial(n >= 2);
    V zd(d, 0.0), ze(e, 0.0);
    accumulator_set<V, stats<tag::covariance<V, tag::covariate1> > > a(sample = zd, covariate1 = ze);
    accumulator_set<V, stats<tag::covariance<V, tag::covariate1> >, double> b(sample = zd, covariate1 = ze);
    Schedule s(r, n);
    for (std::size_t i = 0; i < n; ++i)
    {
        a(row(X, i), covariate1 = row(Y, i)); b(row(X, i), weight = w[i], covariate1 = row(Y, i));
        if (!s.at(r, i + 1)) continue;
        auto ca = covariance(a); auto cb = covariance(b);
        if (!check_true("covariance:matrix shape", ca.size1() == e && ca.size2() == d && cb.size1() == e && cb.size2() == d,
            "sample dim " + str(d) + " covariate dim " + str(e) + " got " + str(ca.size1()) + "x" + str(ca.size2()))) return;
        for (std::size_t p = 0; p < e; ++p) for (std::size_t q = 0; q < d; ++q)
        {
            ld t, ex = cov_ref(X[q], Y[p], one, i + 1, t); check_near("covariance:matrix", ca(p, q), ex, t, "entry " + str(p) + "," + str(q));
            ex = cov_ref(X[q], Y[p], w, i + 1, t); check_near("weighted_covariance:matrix", cb(p, q), ex, 2 * t, "entry " + str(p) + "," + str(q));
        }
    }
    count_event(d == e ? "square matrices" : "rectangular matrices");
    show("dims " + str(e) + "x" + str(d) + " n=" + str(n));
}
#elif PART == 4 || PART == 5
template<class C> struct mk;
template<class T> struct mk<std::vector<T> > { static std::vector<T> zero(std::size_t d) { return std::vector<T>(d, T()); } static std::vector<T> of(V const &v) { return std::vector<T>(v.begin(), v.end()); } };
template<class T> struct mk<std::valarray<T> > { static std::valarray<T> zero(std::size_t d) { return std::valarray<T>(T(), d); } static std::valarray<T> of(V const &v) { std::valarray<T> a(v.size()); for (std::size_t i = 0; i < v.size(); ++i) a[i] = (T)v[i]; return a; } };

template<class C> static void components(Rng &r, std::string const &name, bool integral)
{
    std::size_t n = len(r, 50), d = dims(r);
    auto cols = gen_cols(r, n, d); if (integral) for (auto &c : cols) for (auto &x : c) x = std::floor(std::fmod(x * 7, 1000));
    for (auto &c : cols) sig_stream(c); sig(hash_str(name)); nontrivial(n >= 2);
    C z = mk<C>::zero(d);
    accumulator_set<C, stats<tag::count, tag::sum, tag::mean, tag::min, tag::max, tag::moment<2>, tag::moment<3> > > a(sample = z);
    accumulator_set<C, stats<tag::immediate_mean> > b(sample = z);
    // a temporary initial value must reach every accumulator of the set
    accumulator_set<C, stats<tag::sum, tag::moment<2>, tag::min, tag::mean> > t(sample = mk<C>::zero(d));
    Schedule s(r, n);
    for (std::size_t i = 0; i < n; ++i)
    {
        C x = mk<C>::of(row(cols, i)); a(x); b(x); t(mk<C>::of(row(cols, i)));
        if (!s.at(r, i + 1)) continue;
        auto sm = sum(a); auto mn = (min)(a); auto mx = (max)(a); auto me = mean(a); auto m2 = moment<2>(a); auto m3 = moment<3>(a); auto im = mean(b);
        auto ts = sum(t); auto tm = moment<2>(t); auto tn = (min)(t); auto te = mean(t);
        check_eq("count:" + name, count(a), i + 1);
        if (!check_true("component count:" + name, sm.size() == d && mn.size() == d && mx.size() == d && me.size() == d && m2.size() == d && m3.size() == d && im.size() == d && ts.size() == d && tm.size() == d && tn.size() == d && te.size() == d)) return;
        for (std::size_t k = 0; k < d; ++k)
        {
            Moments m = moments(cols[k], i + 1); std::string w = "component " + str(k) + " of " + str_seq(cols[k], 5) + " prefix " + str(i + 1);
            check_near("sum:" + name, sm[k], m.sum, tol_sum(m, EPS), w); check_near("mean:" + name, me[k], m.mean, tol_mean(m, EPS), w);
            check_near("mean(immediate):" + name, im[k], m.mean, tol_mean(m, EPS), w);
            check_near("moment2:" + name, m2[k], m.raw[2], tol_moment(m, 2, EPS), w); check_near("moment3:" + name, m3[k], m.raw[3], tol_moment(m, 3, EPS), w);
            check_true("min:" + name, (ld)mn[k] == m.mn, w); check_true("max:" + name, (ld)mx[k] == m.mx, w);
            check_near("sum:temporary:" + name, ts[k], m.sum, tol_sum(m, EPS), w); check_near("moment2:temporary:" + name, tm[k], m.raw[2], tol_moment(m, 2, EPS), w);
            check_true("min:temporary:" + name, (ld)tn[k] == m.mn, w); check_near("mean:temporary:" + name, te[k], m.mean, tol_mean(m, EPS), w);
        }
    }
    count_event("streams of " + name);
}
template<class C, class W> static void weighted_components(Rng &r, std::string const &name, bool integral)
{
    std::size_t n = integral ? r.below(40) : len(r, 40), d = dims(r);
    auto cols = gen_cols(r, n, d); if (integral) for (auto &c : cols) for (auto &x : c) x = std::floor(std::fmod(x * 7, 1000));
    std::vector<double> w = pos_weights(r, n); if (std::is_integral<W>::value) for (auto &x : w) x = std::ceil(x);
    for (auto &c : cols) sig_stream(c); sig_stream(w); sig(hash_str(name)); nontrivial(n >= 2);
    C z = mk<C>::zero(d);
    accumulator_set<C, stats<tag::sum, tag::mean>, W> a(sample = z);
    accumulator_set<C, stats<tag::immediate_mean>, W> b(sample = z);
    Schedule s(r, n);
    for (std::size_t i = 0; i < n; ++i)
    {
        C x = mk<C>::of(row(cols, i)); a(x, weight = (W)w[i]); b(x, weight = (W)w[i]);
        if (!s.at(r, i + 1)) continue;
        auto sm = sum(a); auto me = mean(a); auto im = mean(b);
        if (!check_true("component count:w:" + name, sm.size() == d && me.size() == d && im.size() == d)) return;
        for (std::size_t k = 0; k < d; ++k)
        {
            Moments m = wmoments(cols[k], w, i + 1);
            check_near("sum:w:" + name, sm[k], m.sum, tol_sum(m, EPS)); check_near("mean:w:" + name, me[k], m.mean, tol_mean(m, EPS)); check_near("mean(immediate):w:" + name, im[k], m.mean, tol_mean(m, EPS));
        }
    }
}
#if PART == 4
SCENARIO(vector_double, 400) { components<std::vector<double> >(r, "vector<double>", false); }
SCENARIO(vector_int, 300) { components<std::vector<long long> >(r, "vector<long long>", true); }
SCENARIO(vector_weighted, 300) { weighted_components<std::vector<double>, double>(r, "vector<double>", false); }
SCENARIO(vector_int_weighted, 200) { weighted_components<std::vector<int>, int>(r, "vector<int>", true); }
SCENARIO(vector_variance, 300)
{
    std::size_t n = len(r, 60), d = dims(r); auto cols = gen_cols(r, n, d);
    for (auto &c : cols) sig_stream(c); nontrivial(n >= 2);
    V z(d, 0.0);
    accumulator_set<V, stats<tag::variance> > a(sample = z); accumulator_set<V, stats<tag::lazy_variance> > b(sample = z);
    for (std::size_t i = 0; i < n; ++i)
    {
        a(row(cols, i)); b(row(cols, i));
        V va = variance(a), vb = lazy_variance(b);
        for (std::size_t k = 0; k < d; ++k) { Moments m = moments(cols[k], i + 1); check_var("variance:vector", va.at(k), m, EPS, ""); check_var("lazy_variance:vector", vb.at(k), m, EPS, ""); }
    }
}
#else
SCENARIO(valarray_double, 400) { components<std::valarray<double> >(r, "valarray<double>", false); }
SCENARIO(valarray_int, 300) { components<std::valarray<long long> >(r, "valarray<long long>", true); }
SCENARIO(valarray_weighted, 300) { weighted_components<std::valarray<double>, double>(r, "valarray<double>", false); }
SCENARIO(valarray_int_weighted, 200) { weighted_components<std::valarray<int>, int>(r, "valarray<int>", true); }
#endif
#else
typedef std::complex<double> Z;
SCENARIO(complex_samples, 400)
{
    std::size_t n = len(r, 80); auto re = gen(r, n, (int)r.below(NKINDS)), im = gen(r, n, (int)r.below(NKINDS)), w = pos_weights(r, n);
    sig_stream(re); sig_stream(im); nontrivial(n >= 2);
    accumulator_set<Z, stats<tag::count, tag::sum, tag::mean, tag::moment<2> > > a;
    accumulator_set<Z, stats<tag::immediate_mean> > b;
    accumulator_set<Z, stats<tag::weighted_mean>, double> c; accumulator_set<Z, stats<tag::weighted_mean(immediate)>, int> d;
    std::vector<double> wi; for (double x : w) wi.push_back(std::ceil(x));
    Schedule s(r, n);
    for (std::size_t i = 0; i < n; ++i)
    {
        Z z(re[i], im[i]); a(z); b(z); c(z, weight = w[i]); d(z, weight = (int)wi[i]);
        if (!s.at(r, i + 1)) continue;
        Moments mr = moments(re, i + 1), mi = moments(im, i + 1); ld A2 = (mr.A + mi.A) * (mr.A + mi.A);
        auto near2 = [&](char const *key, Z got, ld er, ld ei, ld tr, ld ti) { check_near(key, got.real(), er, tr); check_near(key, got.imag(), ei, ti); };
        check_eq("count:complex", count(a), i + 1);
        near2("sum:complex", sum(a), mr.sum, mi.sum, tol_sum(mr, EPS), tol_sum(mi, EPS));
        near2("mean:complex", mean(a), mr.mean, mi.mean, tol_mean(mr, EPS), tol_mean(mi, EPS));
        near2("mean(immediate):complex", mean(b), mr.mean, mi.mean, tol_mean(mr, EPS), tol_mean(mi, EPS));
        ld sr = 0, si = 0; for (std::size_t j = 0; j <= i; ++j) { sr += (ld)re[j] * re[j] - (ld)im[j] * im[j]; si += 2 * (ld)re[j] * im[j]; }
        near2("moment2:complex", moment<2>(a), sr / (i + 1), si / (i + 1), 4 * (i + 8) * EPS * A2, 4 * (i + 8) * EPS * A2);
        Moments wr = wmoments(re, w, i + 1), wm = wmoments(im, w, i + 1);
        near2("weighted_mean:complex", weighted_mean(c), wr.mean, wm.mean, tol_mean(wr, EPS), tol_mean(wm, EPS));
        Moments vr = wmoments(re, wi, i + 1), vm = wmoments(im, wi, i + 1);
        near2("weighted_mean(immediate):complex", weighted_mean(d), vr.mean, vm.mean, tol_mean(vr, EPS), tol_mean(vm, EPS));
    }
}
// covariates passed as temporaries next to statistics that keep them
SCENARIO(vector_variates, 400)
{
    typedef tag::tail_variate<V, tag::covariate1, right> TV; typedef tag::mean_of_variates<V, tag::covariate1> M; typedef tag::immediate_mean_of_variates<V, tag::covariate2> M2;
    std::size_t n = len(r, 40), d = dims(r); auto cols = gen_cols(r, n, d), cols2 = gen_cols(r, n, d); V z(d, 0.0);
    for (auto &c : cols) sig_stream(c); nontrivial(n >= 2);
    accumulator_set<double, stats<TV, M, M2> > a(tag::tail<right>::cache_size = 1 + r.below(6), covariate1 = z, covariate2 = z, sample = 0.0);
    accumulator_set<double, stats<M2, M> > b(covariate1 = V(d, 0.0), covariate2 = V(d, 0.0));
    for (std::size_t i = 0; i < n; ++i)
    {
        double x = r.normal();
        a(x, covariate1 = row(cols, i), covariate2 = row(cols2, i)); b(x, covariate2 = row(cols2, i), covariate1 = row(cols, i));
        V m = extract_result<M>(a), m2 = extract_result<tag::immediate_mean_of_variates<V, tag::covariate2> >(a), mb = extract_result<M>(b), mb2 = extract_result<tag::immediate_mean_of_variates<V, tag::covariate2> >(b);
        if (!check_true("mean_of_variates:size", m.size() == d && m2.size() == d && mb.size() == d && mb2.size() == d)) return;
        for (std::size_t k = 0; k < d; ++k)
        {
            Moments e = moments(cols[k], i + 1), e2 = moments(cols2[k], i + 1);
            check_near("mean_of_variates:vector", m[k], e.mean, tol_mean(e, EPS)); check_near("mean_of_variates:vector", mb[k], e.mean, tol_mean(e, EPS));
            check_near("mean_of_variates(immediate):vector", m2[k], e2.mean, tol_mean(e2, EPS)); check_near("mean_of_variates(immediate):vector", mb2[k], e2.mean, tol_mean(e2, EPS));
        }
    }
}
#endif
