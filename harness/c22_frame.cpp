// C22: the framework's own machinery (drops, external and referenced sets, values, visits, vector arithmetic, cumulative caches) from several threads at once.
#include "anyset.hpp"
#include <atomic>
#include <complex>
#include <thread>
#include <valarray>
#include <boost/accumulators/numeric/functional/vector.hpp>
#include <boost/accumulators/numeric/functional/complex.hpp>
#include <boost/accumulators/numeric/functional/valarray.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/accumulators/framework/accumulators/external_accumulator.hpp>
#include <boost/accumulators/framework/accumulators/reference_accumulator.hpp>
#include <boost/accumulators/framework/accumulators/value_accumulator.hpp>
using namespace vf; using namespace boost::accumulators; namespace ba = boost::accumulators;
namespace { namespace my { BOOST_PARAMETER_KEYWORD(tag, other) BOOST_PARAMETER_KEYWORD(tag, obj) } }
typedef std::vector<any::Snap> Log;
static void drops(Rng &r, Log &o, bool y)
{
    typedef accumulator_set<double, stats<droppable<tag::variance(lazy)>, droppable<tag::mean(lazy)>, droppable<tag::moment<2> >, droppable<tag::sum>, tag::min> > S;
    std::size_t n = 3 + r.below(60), k = r.below(n); S s;
    for (std::size_t i = 0; i < n; ++i)
    {
        if (i == k) s.drop<tag::variance>(); if (i == k + 2) s.drop<tag::mean>(); if (i == k + 3) s.drop<tag::moment<2> >(); s(r.normal());
        if (r.chance(.3)) { S c(s); if (r.chance(.5)) s = c; o.push_back(any::Snap{mean(c), variance(c), sum(c), (ba::min)(s)}); if (y) std::this_thread::yield(); }
    }
}
static void outside(Rng &r, Log &o, bool y)
{
    typedef accumulator_set<void, stats<tag::sum_of_weights>, double> Ws; typedef accumulator_set<double, stats<tag::weighted_mean, tag::weighted_variance>, external<double> > Ex;
    typedef accumulator_set<double, stats<tag::sum, tag::count> > Far; typedef accumulator_set<double, stats<tag::reference<Far, my::tag::other>, tag::external<tag::sum, my::tag::other>, tag::value<int, my::tag::obj>, tag::max> > Rf;
    Ws ws; Far far; Ex ex; int id = (int)r.below(100); Rf rf(my::other = far, my::obj = id); std::size_t n = 3 + r.below(40);
    for (std::size_t i = 0; i < n; ++i)
    {
        double x = r.normal(), w = .5 + r.uni(); ws(weight = w); ex(x, weight = w, weights = ws); far(x); rf(x);
        if (r.chance(.3)) { Rf c(rf); o.push_back(any::Snap{weighted_mean(ex, weights = ws), weighted_variance(ex, weights = ws), sum(rf), sum(c), (double)value_tag<my::tag::obj>(c), (ba::max)(rf)}); if (y) std::this_thread::yield(); }
    }
}
template<class M> static auto flat(any::Snap &q, M const &m) -> decltype(m.size1(), void()) { for (std::size_t k = 0; k < m.size1(); ++k) for (std::size_t l = 0; l < m.size2(); ++l) q.push_back(m(k, l)); }
static void flat(any::Snap &q, std::valarray<double> const &v) { for (double x : v) q.push_back(x); }
template<class V> static void vectors(Rng &r, Log &o, V const &proto, bool y)
{
    std::size_t d = proto.size(), n = 2 + r.below(30); accumulator_set<V, stats<tag::mean, tag::sum, tag::covariance<V, tag::covariate1>> > s(sample = proto, covariate1 = proto);
    accumulator_set<V, stats<tag::weighted_mean, tag::weighted_sum>, double> w(sample = proto);
    for (std::size_t i = 0; i < n; ++i)
    {
        V a(proto), b(proto); for (std::size_t k = 0; k < d; ++k) { a[k] = r.normal(); b[k] = r.normal(); } s(a, covariate1 = b); w(a, weight = .5 + r.uni());
        if (!r.chance(.3)) continue;
        any::Snap q; V m = mean(s), t = sum(s), v = mean(w); for (std::size_t k = 0; k < d; ++k) { q.push_back(m[k]); q.push_back(t[k]); q.push_back(v[k]); }
        flat(q, covariance(s));
        o.push_back(q); if (y) std::this_thread::yield();
    }
}
static void ranges(Rng &r, Log &o, bool y)
{
    // answers out of range, exceptions, and every extraction of a cached distribution
    std::vector<double> pr{.2, .4, .7, .9}; std::size_t n = 12 + r.below(80);
    accumulator_set<double, stats<tag::extended_p_square_quantile> > e(extended_p_square_probabilities = pr); accumulator_set<double, stats<tag::extended_p_square_quantile_quadratic> > eq(extended_p_square_probabilities = pr);
    accumulator_set<int, stats<tag::tail_quantile<ba::left>, tag::coherent_tail_mean<ba::left> > > t(left_tail_cache_size = 1 + r.below(9)); accumulator_set<double, stats<tag::density, tag::p_square_cumulative_distribution>, double> h(density_cache_size = 4, density_num_bins = 3, p_square_cumulative_distribution_num_cells = 4);
    accumulator_set<double, stats<tag::tail_variate_means<ba::right, std::vector<double>, tag::covariate1>(relative), tag::pot_tail_mean<ba::right>(with_threshold_probability)> > v(right_tail_cache_size = 2 + r.below(30), pot_threshold_probability = .8);
    for (std::size_t i = 0; i < n; ++i)
    {
        double x = r.normal() * 10; std::vector<double> c{r.normal(), r.normal()}; e(x); eq(x); t((int)x); h(x, weight = .1 + r.uni()); v(x, covariate1 = c);
        if (i < 10 || !r.chance(.3)) continue;
        any::Snap q; double p = r.chance(.3) ? .01 : r.chance(.3) ? .995 : r.uni(); any::Out out(q);
        try { q.push_back(ba::quantile(e, quantile_probability = p)); } catch (std::runtime_error const &) { q.push_back(-1); }
        try { q.push_back(ba::quantile(eq, quantile_probability = p)); } catch (std::runtime_error const &) { q.push_back(-1); }
        try { q.push_back(ba::quantile(t, quantile_probability = p)); } catch (std::runtime_error const &) { q.push_back(-1); }
        try { q.push_back(ba::tail_mean(t, quantile_probability = p)); } catch (std::runtime_error const &) { q.push_back(-1); }
        try { for (double z : ba::relative_tail_variate_means(v, quantile_probability = p)) q.push_back(z); } catch (std::runtime_error const &) { q.push_back(-1); }
        try { q.push_back(ba::tail_mean(v, quantile_probability = .99)); } catch (std::runtime_error const &) { q.push_back(-1); }
        out.pairs(ba::density(h)); out.pairs(ba::p_square_cumulative_distribution(h)); o.push_back(q); if (y) std::this_thread::yield();
    }
}
static void program(std::uint64_t seed, Log &o, bool y)
{
    Rng r(seed); for (int k = 0; k < 3; ++k) switch (r.below(5))
    {
    case 0: drops(r, o, y); break; case 1: outside(r, o, y); break; case 2: ranges(r, o, y); break;
    case 3: vectors(r, o, std::vector<double>(1 + r.below(4)), y); break; default: vectors(r, o, std::valarray<double>(1 + r.below(4)), y);
    }
}
SCENARIO(framework, 300)
{
    std::size_t T = 2 + r.below(5); std::vector<std::uint64_t> sd(T); bool alike = r.chance(.4); for (auto &x : sd) x = alike ? sd[0] ? sd[0] : r.next() : r.next();
    std::vector<Log> got(T); std::atomic<int> ready(0); std::vector<std::thread> th;
    for (std::size_t k = 0; k < T; ++k) th.emplace_back([&, k] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < (int)T) std::this_thread::yield(); program(sd[k], got[k], true); });
    for (auto &x : th) x.join();
    for (std::size_t k = 0; k < T; ++k)
    {
        Log ref; program(sd[k], ref, false); check_true("framework:number of results", ref.size() == got[k].size(), std::to_string(T) + " threads");
        for (std::size_t i = 0; i < ref.size() && i < got[k].size(); ++i) check_true("framework", any::equal(ref[i], got[k][i]), "thread " + std::to_string(k) + " of " + std::to_string(T) + " result " + std::to_string(i) + ": alone and among threads " + any::diff(ref[i], got[k][i]));
        sig(sd[k]); count_event("framework results compared", ref.size());
    }
    count_event("framework threads run", T); nontrivial(); show(std::to_string(T) + " threads on drops, external sets, vectors and out-of-range extractions");
}
