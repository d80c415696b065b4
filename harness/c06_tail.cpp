// C06: tails hold exactly the extreme samples, with their own covariates and
// weights.  Every pushed tuple carries a unique id in its covariate (and a
// unique weight), so the report identifies the tuple it came from.
#include <string>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include "tails.hpp"
using namespace boost::accumulators;
using namespace vf;

template<class V> struct mk;
template<> struct mk<int> { static int make(std::size_t i) { return (int)i * 3 + 1; } static std::size_t id(int v) { return (v - 1) % 3 ? (std::size_t)-1 : (std::size_t)(v - 1) / 3; } };
template<> struct mk<std::string> { static std::string make(std::size_t i) { return "tuple with a long enough name #" + std::to_string(i); }
    static std::size_t id(std::string const &s) { std::size_t p = s.find('#'); return p == s.npos ? (std::size_t)-1 : std::stoul(s.substr(p + 1)); } };
template<> struct mk<std::vector<double> > { static std::vector<double> make(std::size_t i) { return std::vector<double>(3, (double)i + .5); }
    static std::size_t id(std::vector<double> const &v) { return v.size() == 3 && v[0] == v[2] ? (std::size_t)(v[0] - .5) : (std::size_t)-1; } };
inline double mkw(std::size_t i) { return 1.0 + (double)(i * 7 + 3) / 1048576.0; }
inline std::size_t idw(double w) { double k = ((w - 1.0) * 1048576.0 - 3) / 7; return k < -0.5 || k != std::floor(k) ? (std::size_t)-1 : (std::size_t)k; }

template<class S, class V, class LR> static void typed(Rng &r, std::string const &name, bool huge = false)
{
    bool const lf = std::is_same<LR, left>::value;
    std::size_t n = gen_len(r, 600), c = gen_cache(r, n); if (huge) { c = 65530 + r.below(500); n = c + r.below(3000); }
    std::vector<S> x = tail_stream<S>(r, n, r.chance(.4));
    accumulator_set<S, stats<tag::tail<LR> > > a(tag::tail<LR>::cache_size = c);
    accumulator_set<S, stats<tag::tail_variate<V, tag::covariate1, LR> > > b(tag::tail<LR>::cache_size = c);
    accumulator_set<S, stats<tag::tail_weights<LR>, tag::tail_variate<V, tag::covariate2, LR> >, double> d(tag::tail<LR>::cache_size = c);
    accumulator_set<S, stats<tag::tail_weights<LR> >, double> e(tag::tail<LR>::cache_size = c);
    Schedule s(r, n); std::size_t i = 0;
    auto look = [&]
    {
        std::size_t m = std::min(i, c);
        std::vector<S> want(x.begin(), x.begin() + i);
        if (lf) std::sort(want.begin(), want.end()); else std::sort(want.begin(), want.end(), std::greater<S>());
        want.resize(m);
        std::string wh = name + " cache " + std::to_string(c) + " after " + std::to_string(i) + " of " + str_seq(x);
        auto ext = [&](std::string const &key, auto rg)
        {
            std::vector<S> g(rg.begin(), rg.end());
            check_true(key, g == want, wh + " got " + str_seq(g) + " want " + str_seq(want));
            check_eq(key + ":size", (std::size_t)rg.size(), m, wh);
        };
        // look at them in a random order: the first one sorts the cache
        int first = (int)r.below(3);
        if (first == 0) ext("tail", tail(a));
        auto paired = [&](std::string const &key, std::vector<std::size_t> const &ids)
        {
            bool ok = ids.size() == m; std::set<std::size_t> used;
            for (std::size_t k = 0; ok && k < m; ++k) ok = ids[k] < i && x[ids[k]] == want[k] && used.insert(ids[k]).second;
            check_true(key, ok, wh + " tail " + str_seq(want) + " tuples reported " + str_seq(ids));
        };
        auto ids_of = [&](auto rg) { std::vector<std::size_t> v; for (auto const &y : rg) v.push_back(mk<V>::id(y)); return v; };
        auto wids_of = [&](auto rg) { std::vector<std::size_t> v; for (double y : rg) v.push_back(idw(y)); return v; };
        if (first == 1) ext("tail:with variate", tail(b));
        paired("tail_variate", ids_of(tail_variate(b)));
        paired("tail_weights", wids_of(tail_weights(e)));
        std::vector<std::size_t> iv = ids_of(tail_variate(d)), iw = wids_of(tail_weights(d));
        paired("tail_variate:with weights", iv); paired("tail_weights:with variate", iw);
        check_true("weights and covariates of one tuple", iv == iw, wh + " " + str_seq(iv) + " / " + str_seq(iw));
        if (first != 0) ext("tail", tail(a));
        if (first != 1) ext("tail:with variate", tail(b));
        ext("tail:with both", tail(d)); ext("tail:with weights", tail(e));
    };
    look();
    for (i = 0; i < n;)
    {
        S v = x[i]; V id = mk<V>::make(i); double w = mkw(i);
        a(v); b(v, covariate1 = id); d(v, weight = w, covariate2 = id); e(v, weight = w); ++i;
        if (huge ? i == n || i == c || r.chance(1e-5) : s.at(r, i)) look();
    }
    for (S v : x) sig((double)v); sig((std::uint64_t)c); sig(hash_str(name)); nontrivial(n >= 2);
    count_event("tuples pushed", 4 * n); if (n > c) count_event("streams exceeding the cache");
    show(name + " cache " + std::to_string(c) + " x=" + str_seq(x, 6));
}
#if PART == 1
SCENARIO(left_double_int, 500) { typed<double, int, left>(r, "left<double,int>"); }
SCENARIO(right_double_long, 6) { LongCase l; typed<double, int, right>(r, "right<double,int>"); }
SCENARIO(right_double_huge, 3) { typed<double, int, right>(r, "right<double,int>", true); }
SCENARIO(right_double_int, 500) { typed<double, int, right>(r, "right<double,int>"); }
#elif PART == 2
SCENARIO(left_int_long, 6) { LongCase l; typed<int, std::string, left>(r, "left<int,string>"); }
SCENARIO(left_int_huge, 2) { typed<int, std::string, left>(r, "left<int,string>", true); }
SCENARIO(left_int_string, 400) { typed<int, std::string, left>(r, "left<int,string>"); }
SCENARIO(right_int_string, 400) { typed<int, std::string, right>(r, "right<int,string>"); }
#elif PART == 3
SCENARIO(left_float_vector, 300) { typed<float, std::vector<double>, left>(r, "left<float,vector>"); }
SCENARIO(right_float_vector, 300) { typed<float, std::vector<double>, right>(r, "right<float,vector>"); }
#endif
