// C19: what has been dropped stays dropped in a loaded set.
#define VERIF_SERIALIZE 1
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include "anyset.hpp"
using namespace vf; using namespace boost::accumulators; namespace ba = boost::accumulators;
namespace boost { namespace accumulators {
// a user's droppable accumulator that keeps the result it had when it was dropped
template<> struct droppable_accumulator<impl::mean_impl<float, tag::sum> > : droppable_accumulator_base<with_cached_result<impl::mean_impl<float, tag::sum> > >
{
    template<class Args> droppable_accumulator(Args const &args) : droppable_accumulator::base(args) {}
    droppable_accumulator(droppable_accumulator const &that) : droppable_accumulator::base(*static_cast<droppable_accumulator::base const *>(&that)) {}
};
}}
template<class S> static void save_load(S const &a, S &b, bool bin)
{
    std::stringstream f(std::ios::in | std::ios::out | std::ios::binary);
    if (bin) { { boost::archive::binary_oarchive o(f); o << a; } boost::archive::binary_iarchive i(f); i >> b; } else { { boost::archive::text_oarchive o(f); o << a; } boost::archive::text_iarchive i(f); i >> b; }
}
typedef accumulator_set<double, stats<droppable<tag::count>, droppable<tag::sum>, droppable<tag::min>, droppable<tag::max>, droppable<tag::mean(immediate)> > > SD;
typedef accumulator_set<double, stats<droppable<tag::mean>, droppable<tag::count>, droppable<tag::sum>, tag::max>, double> SW;
typedef accumulator_set<float, stats<droppable<tag::mean>, tag::sum, tag::count> > SC;
static void drop(SD &s, int k) { switch (k) { case 0: s.drop<tag::count>(); break; case 1: s.drop<tag::sum>(); break; case 2: s.drop<tag::min>(); break; case 3: s.drop<tag::max>(); break; case 4: s.drop<tag::mean>(); } }
static void drop(SW &s, int k) { switch (k) { case 0: s.drop<tag::mean>(); break; case 1: s.drop<tag::count>(); break; case 2: s.drop<tag::sum>(); } }
static void drop(SC &s, int k) { s.drop<tag::mean>(); }
static any::Snap get(SD const &s) { return any::Snap{(double)count(s), sum(s), (ba::min)(s), (ba::max)(s), (double)count(s) ? mean(s) : 0}; }
static any::Snap get(SW const &s) { return any::Snap{(double)count(s), sum(s), (ba::max)(s), (double)count(s) ? mean(s) : 0}; }
static any::Snap get(SC const &s) { return any::Snap{(double)count(s), sum(s), (double)count(s) ? mean(s) : 0}; }
static void push(SD &s, double x, double) { s(x); } static void push(SW &s, double x, double w) { s(x, weight = w); } static void push(SC &s, double x, double) { s((float)x); }
template<class S> static void run(Rng &r, char const *nm, int D)
{
    std::size_t n = 2 + gen_len(r, 100); any::Stream t = any::make_stream(r, n); S twin, src; std::vector<int> left; for (int i = 0; i < D; ++i) left.push_back(i); std::vector<std::unique_ptr<S> > c; c.emplace_back(new S);
    std::size_t at = r.below(n + 1), saves = 0; double pd = 2.5 / (n + 1); std::string w = std::string(" ") + nm; int dropped = 0; sig(hash_str(nm));
    auto drops = [&](std::size_t i) { while (!left.empty() && r.chance(pd)) { std::size_t k = r.below(left.size()); drop(twin, left[k]); drop(*c[0], left[k]); if (c.size() > 1) drop(*c[1], left[k]); sig((std::uint64_t)(i * 8 + left[k])); w += " drop" + std::to_string(left[k]) + "@" + std::to_string(i); left.erase(left.begin() + k); ++dropped; } };
    for (std::size_t i = 0; i <= n; ++i)
    {
        if (i) drops(i);       // a cached mean of nothing is nobody's business
        if (i == at)
        {
            std::unique_ptr<S> f(new S); if (r.chance(.3) && i) { push(*f, 1, 1); std::vector<int> l; for (int k = 0; k < D; ++k) if (r.chance(.5)) drop(*f, k); }       // ... or over a set in another state
            bool bin = r.chance(.5); save_load(*c[0], *f, bin); c.emplace_back(std::move(f)); w += " saved@" + std::to_string(i) + (bin ? " binary" : " text"); ++saves;
        }
        if (i == n) break;
        push(twin, t.x[i], t.w[i]); for (auto &x : c) push(*x, t.x[i], t.w[i]);
        if (r.chance(.3) || i + 1 == n || i == at) for (std::size_t q = 0; q < c.size(); ++q) { any::Snap a = get(twin), b = get(*c[q]); check_true(std::string(nm) + (q ? ":loaded" : ":saved set itself"), any::equal(a, b), any::diff(a, b) + " after " + std::to_string(i + 1) + w); }
    }
    for (std::size_t q = 0; q < c.size(); ++q) { any::Snap a = get(twin), b = get(*c[q]); check_true(std::string(nm) + (q ? ":loaded" : ":saved set itself"), any::equal(a, b), any::diff(a, b) + " at the end" + w); }
    count_event("droppable sets saved", saves); count_event("drops", dropped); sig_stream(t.x); nontrivial(n >= 2 && dropped); show(w);
}
SCENARIO(dropped_plain, 300) { run<SD>(r, "droppable", 5); }
SCENARIO(dropped_weighted, 300) { run<SW>(r, "droppable weighted", 3); }
SCENARIO(dropped_cached, 300) { run<SC>(r, "droppable with cached result", 1); }
