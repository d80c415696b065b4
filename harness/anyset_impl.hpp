#include <boost/accumulators/numeric/functional/vector.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/weighted_sum_kahan.hpp>
#include "anyset.hpp"
#ifdef VERIF_SERIALIZE
#include <boost/serialization/vector.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/boost_array.hpp>
#endif
BOOST_PARAMETER_KEYWORD(vtag, tail_covs)
using namespace boost::accumulators;
namespace ba = boost::accumulators;
namespace any {
template<class D> struct SetOf : AnySet
{
    typename D::Set s;
    explicit SetOf(Cfg const &c)
        : AnySet(c)
      , s(sample = D::zero(), rolling_window_size = c.win, right_tail_cache_size = c.rcache, left_tail_cache_size = c.lcache, density_num_bins = c.bins, density_cache_size = c.dcache,
          p_square_cumulative_distribution_num_cells = c.cells, extended_p_square_probabilities = c.probs, quantile_probability = c.qp, pot_threshold_value = c.thr, pot_threshold_probability = c.tprob) {}
    void push(double x, double w, double c1, double c2) override { D::push(s, x, w, c1, c2); ++n; }
    void snap(int f, Snap &o, double p) const override { std::size_t k = o.size(); try { D::snap(s, f, cfg, n, o, p); } catch (std::runtime_error const &) { o.resize(k); o.push_back(-8.5e77); } }      // types without NaN answer an insufficient cache by an exception
    int features() const override { return D::count; }
    AnySet *clone() const override { return new SetOf(*this); }
    void assign(AnySet const &o) override { SetOf const &t = static_cast<SetOf const &>(o); s = t.s; n = t.n; cfg = t.cfg; }
    AnySet *moved() override { return new SetOf(std::move(*this)); }
    void take(AnySet &o) override { SetOf &t = static_cast<SetOf &>(o); s = std::move(t.s); n = t.n; cfg = t.cfg; }
    void exchange(AnySet &o) override { SetOf &t = static_cast<SetOf &>(o); std::swap(s, t.s); std::swap(n, t.n); std::swap(cfg, t.cfg); }
    std::size_t footprint() const override { return sizeof s; }
#ifdef VERIF_SERIALIZE
    // text archives need the non-finite facets for NaN and infinity (Boost.Serialization's documentation)
    static std::locale loc() { std::locale l(std::locale::classic(), new boost::archive::codecvt_null<char>); return std::locale(std::locale(l, new boost::math::nonfinite_num_put<char>), new boost::math::nonfinite_num_get<char>); }
    void save(std::ostream &o, bool b) const override { if (b) { boost::archive::binary_oarchive a(o); D::save(a, s); } else { o.imbue(loc()); boost::archive::text_oarchive a(o, boost::archive::no_codecvt); D::save(a, s); } }
    void load(std::istream &i, bool b) override { if (b) { boost::archive::binary_iarchive a(i); D::load(a, s); } else { i.imbue(loc()); boost::archive::text_iarchive a(i, boost::archive::no_codecvt); D::load(a, s); } }
#endif
};
} // namespace any
