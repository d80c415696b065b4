// C18: copies of sets with droppable accumulators: what is and what is not dropped is part of the value.
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include "anyset.hpp"
using namespace vf; using namespace boost::accumulators; namespace ba = boost::accumulators;
namespace boost { namespace accumulators {
// a user's droppable accumulator that keeps the result it had when it was dropped
template<> struct droppable_accumulator<impl::mean_impl<float, tag::sum> > : droppable_accumulator_base<with_cached_result<impl::mean_impl<float, tag::sum> > >
{
    template<class Args> droppable_accumulator(Args const &args) : droppable_accumulator::base(args) {}
    droppable_accumulator(droppable_accumulator const &that) : droppable_accumulator::base(*static_cast<droppable_accumulator::base const *>(&that)) {}
};
}}
typedef accumulator_set<double, stats<droppable<tag::count>, droppable<tag::sum>, droppable<tag::min>, droppable<tag::max>, droppable<tag::mean(immediate)> > > SD;
typedef accumulator_set<double, stats<droppable<tag::mean>, droppable<tag::count>, droppable<tag::sum>, tag::max>, double> SW;
typedef accumulator_set<float, stats<droppable<tag::mean>, tag::sum, tag::count> > SC;
typedef accumulator_set<double, stats<droppable<tag::variance(lazy)>, droppable<tag::mean(lazy)>, droppable<tag::moment<2> >, droppable<tag::skewness>, tag::min> > SL;
typedef accumulator_set<double, stats<droppable<tag::tail_quantile<ba::right> >, droppable<tag::tail<ba::right> >, droppable<tag::non_coherent_tail_mean<ba::right> >, droppable<tag::rolling_mean(immediate)>, droppable<tag::rolling_sum> > > ST;
static void drop(SD &s, int k) { switch (k) { case 0: s.drop<tag::count>(); break; case 1: s.drop<tag::sum>(); break; case 2: s.drop<tag::min>(); break; case 3: s.drop<tag::max>(); break; case 4: s.drop<tag::mean>(); } }
static void drop(SW &s, int k) { switch (k) { case 0: s.drop<tag::mean>(); break; case 1: s.drop<tag::count>(); break; case 2: s.drop<tag::sum>(); } }
static void drop(SC &s, int) { s.drop<tag::mean>(); }
static void drop(SL &s, int k) { switch (k) { case 0: s.drop<tag::variance>(); break; case 1: s.drop<tag::mean>(); break; case 2: s.drop<tag::moment<2> >(); break; case 3: s.drop<tag::skewness>(); } }
static void drop(ST &s, int k) { switch (k) { case 0: s.drop<tag::tail_quantile<ba::right> >(); break; case 1: s.drop<tag::tail<ba::right> >(); break; case 2: s.drop<tag::non_coherent_tail_mean<ba::right> >(); break; case 3: s.drop<tag::rolling_mean>(); break; case 4: s.drop<tag::rolling_sum>(); } }
static any::Snap get(SD const &s) { return any::Snap{(double)count(s), sum(s), (ba::min)(s), (ba::max)(s), (double)count(s) ? mean(s) : 0}; }
static any::Snap get(SW const &s) { return any::Snap{(double)count(s), sum(s), (ba::max)(s), (double)count(s) ? mean(s) : 0}; }
static any::Snap get(SC const &s) { return any::Snap{(double)count(s), sum(s), (double)count(s) ? mean(s) : 0}; }
static any::Snap get(SL const &s) { any::Snap v{(double)count(s), (ba::min)(s)}; if (count(s)) { v.push_back(mean(s)); v.push_back(variance(s)); v.push_back(moment<2>(s)); v.push_back(skewness(s)); } return v; }
static any::Snap get(ST const &s) { any::Snap v; any::Out o(v); o.range(ba::tail(s)); o(rolling_sum(s)); if (count(s)) { o(rolling_mean(s)); o(ba::quantile(s, quantile_probability = .9)); o(ba::non_coherent_tail_mean(s, quantile_probability = .9)); } return v; }
static void push(SD &s, double x, double) { s(x); } static void push(SW &s, double x, double w) { s(x, weight = w); } static void push(SC &s, double x, double) { s((float)x); } static void push(SL &s, double x, double) { s(x); } static void push(ST &s, double x, double) { s(x); }
template<class S> static S *fresh(std::size_t, std::size_t) { return new S; }
template<> ST *fresh<ST>(std::size_t a, std::size_t b) { return new ST(right_tail_cache_size = a, rolling_window_size = b); }
template<class S> static void over(S &to, S const &from, std::true_type) { to = from; }
template<class S> static void over(S &, S const &, std::false_type) {}
template<class S, bool Assignable> static void run(Rng &r, char const *nm, int D)
{
    std::size_t n = 2 + gen_len(r, 100), ca = 1 + r.below(12), wi = 1 + r.below(6); any::Stream t = any::make_stream(r, n); std::unique_ptr<S> twin(fresh<S>(ca, wi)); std::vector<int> left; for (int i = 0; i < D; ++i) left.push_back(i);
    std::vector<std::unique_ptr<S> > c; std::vector<std::string> how; c.emplace_back(fresh<S>(ca, wi)); how.push_back("source");
    std::size_t at = r.below(n + 1); double pd = 2.5 / (n + 1); std::string w = std::string(" ") + nm + " cache " + std::to_string(ca) + " window " + std::to_string(wi); int dropped = 0; sig(hash_str(nm));
    for (std::size_t i = 0; i <= n; ++i)
    {
        if (i) while (!left.empty() && r.chance(pd)) { std::size_t k = r.below(left.size()); drop(*twin, left[k]); for (auto &x : c) drop(*x, left[k]); sig((std::uint64_t)(i * 8 + left[k])); w += " drop" + std::to_string(left[k]) + "@" + std::to_string(i); left.erase(left.begin() + k); ++dropped; }
        if (i == at)
        {
            w += " copied@" + std::to_string(i);
            c.emplace_back(new S(*c[0])); how.push_back("copy");
            if (Assignable)
            {
                std::unique_ptr<S> f(fresh<S>(1 + r.below(8), 1 + r.below(8))); if (r.chance(.6)) { for (std::size_t j = r.below(6); j > 0; --j) push(*f, (double)j, 1); for (int k = 0; k < D; ++k) if (r.chance(.5)) drop(*f, k); }       // over a set in any other state
                over(*f, *c[0], std::integral_constant<bool, Assignable>()); c.push_back(std::move(f)); how.push_back("assigned");
                S *s = c[1].get(); over(*s, *s, std::integral_constant<bool, Assignable>());
            }
            { std::unique_ptr<S> x(new S(*c[0])); for (int k : left) drop(*x, k); push(*x, 5, 1); }                                     // another copy goes its own way
            if (r.chance(.4)) { c.erase(c.begin()); how.erase(how.begin()); }
        }
        if (i == n) break;
        push(*twin, t.x[i], t.w[i]); for (auto &x : c) push(*x, t.x[i], t.w[i]);
        if (r.chance(.3) || i + 1 == n || i == at) for (std::size_t q = 0; q < c.size(); ++q) { any::Snap a = get(*twin), b = get(*c[q]); check_true(std::string(nm) + ":" + how[q], any::equal(a, b), any::diff(a, b) + " after " + std::to_string(i + 1) + w); }
    }
    for (std::size_t q = 0; q < c.size(); ++q) { any::Snap a = get(*twin), b = get(*c[q]); check_true(std::string(nm) + ":" + how[q], any::equal(a, b), any::diff(a, b) + " at the end" + w); }
    count_event("drops", dropped); sig_stream(t.x); nontrivial(n >= 2 && dropped); show(w);
}
SCENARIO(dropped_plain, 200) { run<SD, true>(r, "droppable", 5); }
SCENARIO(dropped_lazy, 200) { run<SL, true>(r, "droppable lazy", 4); }
SCENARIO(dropped_tails, 200) { run<ST, true>(r, "droppable tails and windows", 5); }
SCENARIO(dropped_weighted, 200) { run<SW, true>(r, "droppable weighted", 3); }
SCENARIO(dropped_cached, 200) { run<SC, false>(r, "droppable with cached result", 1); }
