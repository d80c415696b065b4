// C16 with the library's own statistics: every droppable accumulator accepts a
// prefix of the stream (up to the moment it is no longer live), so each value
// is the statistic of that prefix.
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <memory>
#include "ref.hpp"
using namespace boost::accumulators;
using namespace vf;
// liveness model over named features
struct Live
{
    std::map<std::string, std::vector<std::string> > deps; std::map<std::string, bool> req; std::map<std::string, std::size_t> len;
    bool live(std::string const &f) const
    {
        auto it = req.find(f); if (it != req.end() && it->second) return true;
        for (auto const &kv : deps) for (auto const &d : kv.second) if (d == f && live(kv.first)) return true;
        return false;
    }
    std::vector<std::string> all() const { std::set<std::string> s; for (auto const &kv : deps) { s.insert(kv.first); s.insert(kv.second.begin(), kv.second.end()); } return std::vector<std::string>(s.begin(), s.end()); }
    void push() { for (auto const &f : all()) if (live(f)) ++len[f]; }
    std::string text() const { std::string t; for (auto const &kv : len) t += kv.first + ":" + std::to_string(kv.second) + " "; return t; }
};
static ld EPS_ = 2.3e-16L;
template<class D> static void drive(Rng &r, D &&d, Live &m, std::vector<std::string> droppables, std::vector<double> const &x, std::vector<double> const &w)
{
    std::size_t n = x.size(); double pd = r.chance(.3) ? .5 : 3.0 / (n + 1); bool copy = r.chance(.3);
    auto cur = d; typedef decltype(cur) T; std::unique_ptr<T> s(new T(d)); std::size_t drops = 0;
    for (std::size_t i = 0; i <= n; ++i)
    {
        while (!droppables.empty() && r.chance(pd))
        {
            std::size_t k = r.below(droppables.size()); s->drop(droppables[k]); m.req[droppables[k]] = false; ++drops; sig((std::uint64_t)(i * 16 + k));
            droppables.erase(droppables.begin() + k); s->judge(m, x, w, "just after a drop, " + m.text());
        }
        if (copy && r.chance(.1)) s.reset(new T(*s));
        if (i == n) break;
        s->push(x[i], w[i]); m.push();
        if (r.chance(n > 60 ? 10.0 / n : .6) || i + 1 == n) s->judge(m, x, w, "after " + std::to_string(i + 1) + ", " + m.text());
    }
    count_event("drops", drops); sig_stream(x); nontrivial(n >= 2 && drops);
}
#define WHO std::string const &wh
struct Immediate
{
    accumulator_set<double, stats<droppable<tag::count>, droppable<tag::sum>, droppable<tag::min>, droppable<tag::max>, droppable<tag::mean(immediate)>, droppable<tag::variance(immediate)> > > a;
    void push(double x, double) { a(x); }
    void drop(std::string const &f) { if (f == "count") a.drop<tag::count>(); if (f == "sum") a.drop<tag::sum>(); if (f == "min") a.drop<tag::min>(); if (f == "max") a.drop<tag::max>(); if (f == "mean") a.drop<tag::mean>(); if (f == "variance") a.drop<tag::variance>(); }
    void judge(Live const &m, std::vector<double> const &x, std::vector<double> const &, WHO)
    {
        auto L = [&](char const *f) { auto it = m.len.find(f); return it == m.len.end() ? (std::size_t)0 : it->second; };
        check_eq("count", count(a), L("count"), wh);
        Moments s = moments(x, L("sum")); ld t = 0; for (std::size_t i = 0; i < L("sum"); ++i) t += x[i]; check_near("sum", sum(a), t, (L("sum") + 4) * tol_mean(s, EPS_) + 1e-300L, wh);
        if (L("min")) check_eq("min", (min)(a), *std::min_element(x.begin(), x.begin() + L("min")), wh);
        if (L("max")) check_eq("max", (max)(a), *std::max_element(x.begin(), x.begin() + L("max")), wh);
        if (L("mean")) { Moments q = moments(x, L("mean")); check_near("mean(immediate)", mean(a), q.mean, tol_mean(q, EPS_), wh); }
        if (L("variance")) { Moments q = moments(x, L("variance")); check_near("variance(immediate)", variance(a), q.var(), tol_var(q, EPS_), wh); }
    }
};
SCENARIO(immediate, 400)
{
    std::size_t n = gen_len(r, 400); std::vector<double> x = gen(r, n, (int)r.below(NKINDS)), w(n, 1);
    Live m; m.deps = {{"count", {}}, {"sum", {}}, {"min", {}}, {"max", {}}, {"mean", {"count"}}, {"variance", {"count", "mean"}}};
    std::vector<std::string> d = {"count", "sum", "min", "max", "mean", "variance"}; for (auto &f : d) m.req[f] = true;
    drive(r, Immediate(), m, d, x, w);
}
struct Lazy
{
    accumulator_set<double, stats<tag::sum, droppable<tag::count>, droppable<tag::mean(lazy)>, droppable<tag::variance(lazy)>, droppable<tag::moment<3> > > > a;
    void push(double x, double) { a(x); }
    void drop(std::string const &f) { if (f == "count") a.drop<tag::count>(); if (f == "mean") a.drop<tag::mean>(); if (f == "variance") a.drop<tag::variance>(); if (f == "moment3") a.drop<tag::moment<3> >(); }
    void judge(Live const &m, std::vector<double> const &x, std::vector<double> const &, WHO)
    {
        auto L = [&](char const *f) { auto it = m.len.find(f); return it == m.len.end() ? (std::size_t)0 : it->second; };
        auto P = [&](std::size_t n, int k) { ld t = 0; for (std::size_t i = 0; i < n; ++i) t += std::pow((ld)x[i], k); return t; };
        auto A = [&](std::size_t n, int k) { ld t = 0; for (std::size_t i = 0; i < n; ++i) t += std::pow(std::fabs((ld)x[i]), k); return t; };
        std::size_t c = L("count"); check_eq("count", count(a), c, wh); if (!c) return;
        ld e = 8 * (x.size() + 8) * EPS_;
        check_near("sum(not droppable)", sum(a), P(L("sum"), 1), e * A(L("sum"), 1), wh);
        check_near("mean(lazy)", mean(a), P(L("sum"), 1) / c, e * A(L("sum"), 1), wh);
        check_near("moment<2>", moment<2>(a), P(L("moment2"), 2) / c, e * A(L("moment2"), 2), wh);
        ld mu = P(L("sum"), 1) / c; check_near("variance(lazy)", variance(a), P(L("moment2"), 2) / c - mu * mu, 4 * e * (A(L("moment2"), 2) + A(L("sum"), 1) * A(L("sum"), 1) / c), wh);
        check_near("moment<3>", moment<3>(a), P(L("moment3"), 3) / c, e * A(L("moment3"), 3), wh);
    }
};
SCENARIO(lazy_, 400)
{
    std::size_t n = gen_len(r, 400); std::vector<double> x = gen(r, n, (int)r.below(NKINDS)), w(n, 1);
    Live m; m.deps = {{"count", {}}, {"sum", {}}, {"mean", {"count", "sum"}}, {"moment2", {"count"}}, {"moment3", {"count"}}, {"variance", {"moment2", "mean"}}};
    std::vector<std::string> d = {"count", "mean", "variance", "moment3"}; for (auto &f : d) m.req[f] = true; m.req["sum"] = true;
    drive(r, Lazy(), m, d, x, w);
}
struct Weighted
{
    accumulator_set<double, stats<droppable<tag::sum>, droppable<tag::mean(immediate)>, droppable<tag::sum_of_weights>, droppable<tag::variance(immediate)>, droppable<tag::moment<2> >, tag::max>, double> a;
    void push(double x, double w) { a(x, weight = w); }
    void drop(std::string const &f) { if (f == "sum") a.drop<tag::sum>(); if (f == "mean") a.drop<tag::mean>(); if (f == "sow") a.drop<tag::sum_of_weights>(); if (f == "variance") a.drop<tag::variance>(); if (f == "moment2") a.drop<tag::moment<2> >(); }
    void judge(Live const &m, std::vector<double> const &x, std::vector<double> const &w, WHO)
    {
        auto L = [&](char const *f) { auto it = m.len.find(f); return it == m.len.end() ? (std::size_t)0 : it->second; };
        auto P = [&](std::size_t n, int k) { ld t = 0; for (std::size_t i = 0; i < n; ++i) t += w[i] * std::pow((ld)x[i], k); return t; };
        auto A = [&](std::size_t n, int k) { ld t = 0; for (std::size_t i = 0; i < n; ++i) t += w[i] * std::pow(std::fabs((ld)x[i]), k); return t; };
        ld e = 8 * (x.size() + 8) * EPS_;
        check_near("weighted_sum", sum(a), P(L("sum"), 1), e * A(L("sum"), 1), wh);
        check_near("sum_of_weights", sum_of_weights(a), P(L("sow"), 0), e * P(L("sow"), 0), wh);
        if (L("max")) check_eq("max(not droppable)", (max)(a), *std::max_element(x.begin(), x.begin() + L("max")), wh);
        if (L("mean")) { Moments q = wmoments(x, w, L("mean")); check_near("weighted_mean(immediate)", mean(a), q.mean, 8 * tol_mean(q, EPS_), wh); }
        if (L("variance")) { Moments q = wmoments(x, w, L("variance")); check_near("weighted_variance(immediate)", variance(a), q.var(), 8 * tol_var(q, EPS_), wh); }
        if (L("moment2")) check_near("weighted_moment<2>", moment<2>(a), P(L("moment2"), 2) / P(L("sow"), 0), e * A(L("moment2"), 2) / P(L("sow"), 0), wh);
    }
};
SCENARIO(weighted_, 400)
{
    std::size_t n = gen_len(r, 400); std::vector<double> x = gen(r, n, (int)r.below(NKINDS)), w(n); for (double &v : w) v = r.uni() + .05;
    Live m; m.deps = {{"count", {}}, {"sum", {}}, {"sow", {}}, {"max", {}}, {"mean", {"sow"}}, {"variance", {"count", "mean", "sow"}}, {"moment2", {"sow"}}};
    std::vector<std::string> d = {"sum", "mean", "sow", "variance", "moment2"}; for (auto &f : d) m.req[f] = true; m.req["max"] = true;
    drive(r, Weighted(), m, d, x, w);
}
// stateful statistics: compared with a plain set that was fed the prefix only
struct Stateful
{
    typedef tag::tail_quantile<boost::accumulators::right> TQ;
    typedef accumulator_set<double, stats<droppable<tag::rolling_mean>, droppable<TQ>, droppable<tag::tail<boost::accumulators::right> >, droppable<tag::p_square_quantile>, droppable<tag::density>, droppable<tag::error_of<tag::mean> > > > Set;
    std::size_t win, cache, bins, dcache; double p; Set a;
    Stateful(Rng &r) : win(1 + r.below(9)), cache(1 + r.below(12)), bins(1 + r.below(6)), dcache(2 + r.below(10)), p(.1 + .8 * r.uni()),
        a(tag::rolling_window::window_size = win, tag::tail<boost::accumulators::right>::cache_size = cache, quantile_probability = p, tag::density::num_bins = bins, tag::density::cache_size = dcache) {}
    void push(double x, double) { a(x); }
    void drop(std::string const &f) { if (f == "rolling") a.drop<tag::rolling_mean>(); if (f == "tq") a.drop<TQ>(); if (f == "tail") a.drop<tag::tail<boost::accumulators::right> >(); if (f == "psq") a.drop<tag::p_square_quantile>(); if (f == "density") a.drop<tag::density>(); if (f == "err") a.drop<tag::error_of<tag::mean> >(); }
    void judge(Live const &m, std::vector<double> const &x, std::vector<double> const &, WHO)
    {
        auto L = [&](char const *f) { auto it = m.len.find(f); return it == m.len.end() ? (std::size_t)0 : it->second; };
        if (std::size_t n = L("rolling")) { ld t = 0; std::size_t k = std::min(n, win); for (std::size_t i = n - k; i < n; ++i) t += x[i]; ld A = 0; for (std::size_t i = 0; i < n; ++i) A = std::max(A, std::fabs((ld)x[i])); check_near("rolling_mean", rolling_mean(a), t / k, 8 * (n + 8) * EPS_ * A, wh); }
        if (std::size_t n = L("tail"))
        {
            std::vector<double> z(x.begin(), x.begin() + n); std::sort(z.begin(), z.end(), std::greater<double>()); z.resize(std::min(n, cache));
            auto t = tail(a); std::vector<double> got; for (auto v : t) got.push_back(v);
            check_true("tail", got == z, wh + " got " + str_seq(got) + " expected " + str_seq(z));
        }
        if (std::size_t n = L("psq")) { accumulator_set<double, stats<tag::p_square_quantile> > q(quantile_probability = p); for (std::size_t i = 0; i < n; ++i) q(x[i]); check_true("p_square_quantile", same(p_square_quantile(a), p_square_quantile(q)), wh); }
        if (std::size_t n = L("density")) if (n >= dcache)
        {
            accumulator_set<double, stats<tag::density> > q(tag::density::num_bins = bins, tag::density::cache_size = dcache); for (std::size_t i = 0; i < n; ++i) q(x[i]);
            auto h = density(a), g = density(q); bool ok = h.size() == g.size(); for (std::size_t i = 0; ok && i < (std::size_t)h.size(); ++i) ok = same(h[i].first, g[i].first) && (m.len.at("count") != n || same(h[i].second, g[i].second));
            check_true("density", ok, wh);
        }
    }
};
SCENARIO(stateful, 400)
{
    std::size_t n = gen_len(r, 300); std::vector<double> x = gen(r, n, (int)r.below(NKINDS)), w(n, 1);
    Live m; m.deps = {{"count", {}}, {"rolling", {}}, {"tail", {}}, {"tq", {"count", "tail"}}, {"psq", {"count"}}, {"density", {"count"}}, {"err", {"count"}}};
    std::vector<std::string> d = {"rolling", "tq", "tail", "psq", "density", "err"}; for (auto &f : d) m.req[f] = true;
    drive(r, Stateful(r), m, d, x, w);
}
