// C11: every median estimator is the crossing of one half of its own model's distribution.
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include "psq.hpp"
using namespace boost::accumulators;
using namespace vf;
typedef std::vector<std::pair<ld, ld> > Hist;
template<class H> static Hist hist(H const &h) { Hist v; for (auto const &p : h) v.push_back(std::make_pair((ld)p.first, (ld)p.second)); return v; }

// Points of a piecewise linear distribution function: (x_i, F_i). The set of
// points where F crosses [1/2-d, 1/2+d] is [lo, hi].
static void crossing(Hist const &f, ld d, ld &lo, ld &hi)
{
    lo = f[0].first; hi = f.back().first;
    for (std::size_t i = 0; i < f.size(); ++i)
        if (f[i].second >= .5L - d)
        {
            if (i == 0) lo = f[0].first;
            else { ld a = f[i - 1].second, b = f[i].second; lo = b > a ? f[i - 1].first + (f[i].first - f[i - 1].first) * std::max((ld)0, std::min((ld)1, (.5L - d - a) / (b - a))) : f[i - 1].first; }
            break;
        }
    for (std::size_t i = f.size(); i-- > 0;)
        if (f[i].second <= .5L + d)
        {
            if (i + 1 == f.size()) hi = f[i].first;
            else { ld a = f[i].second, b = f[i + 1].second; hi = b > a ? f[i].first + (f[i + 1].first - f[i].first) * std::max((ld)0, std::min((ld)1, (.5L + d - a) / (b - a))) : f[i + 1].first; }
            break;
        }
        else if (i == 0) hi = f[0].first;
    if (hi < lo) std::swap(lo, hi);
}
static void judge(std::string const &key, Hist const &f, ld got, ld eps, ld A, std::size_t n, std::string const &wh)
{
    ld lo, hi; crossing(f, (n + f.size() + 16) * 4 * eps, lo, hi);
    ld sl = 16 * eps * A;
    check_true(key, got >= lo - sl && got <= hi + sl, "got " + str(got) + " the model crosses one half in [" + str(lo) + ", " + str(hi) + "] " + wh);
}
// histogram (lower bounds, fractions) -> distribution function; the overflow bin is as wide as the others
static Hist cdf_of_density(Hist const &h)
{
    Hist f; ld c = 0; ld width = h[1].first - h[0].first;
    for (std::size_t i = 0; i < h.size(); ++i) { f.push_back(std::make_pair(h[i].first, c)); c += h[i].second; }
    f.push_back(std::make_pair(h.back().first + width, c)); return f;
}
template<class S> static void run(Rng &r, std::string const &name)
{
    bool flt = std::is_same<S, float>::value; ld eps = flt ? 1.2e-7L : 2.3e-16L;
    std::size_t bins = 1 + r.below(r.chance(.5) ? 6 : 40), cache = 1 + r.below(r.chance(.5) ? 8 : 60), cells = 1 + r.below(r.chance(.5) ? 6 : 30);
    std::size_t start = std::max(cache, std::max(cells + 1, (std::size_t)5));
    std::size_t n = start + (long_case() ? long_len(r) : r.below(r.chance(.1) ? 2000 : 150)); int kind;
    std::vector<S> x = psq_stream<S>(r, n, kind); std::vector<double> w = psq_weights(r, n, r.chance(.5));
    if (r.chance(.3)) { std::vector<std::size_t> at; for (std::size_t i = 0; i < 3; ++i) w[r.below(n)] *= 20; }
    if (r.chance(.2)) for (std::size_t i = cache; i < n; ++i) x[i] = (S)(x[i] + (S)(r.chance(.5) ? 40 : -40));   // most of the data outside the cached range
    accumulator_set<S, stats<tag::median> > m1, m1s;
    accumulator_set<S, stats<tag::median(with_p_square_quantile)> > m1b;
    accumulator_set<S, stats<tag::median(with_density)> > m2(density_cache_size = cache, density_num_bins = bins), m2s(density_cache_size = cache, density_num_bins = bins);
    accumulator_set<S, stats<tag::median(with_p_square_cumulative_distribution)> > m3(p_square_cumulative_distribution_num_cells = cells), m3s(p_square_cumulative_distribution_num_cells = cells);
    accumulator_set<S, stats<tag::median>, double> w1, w1s;
    accumulator_set<S, stats<tag::weighted_median(with_density)>, double> w2(density_cache_size = cache, density_num_bins = bins);
    accumulator_set<S, stats<tag::median(with_density)>, double> w2s(density_cache_size = cache, density_num_bins = bins);
    accumulator_set<S, stats<tag::weighted_median(with_p_square_cumulative_distribution)>, double> w3(p_square_cumulative_distribution_num_cells = cells);
    accumulator_set<S, stats<tag::median(with_p_square_cumulative_distribution)>, double> w3s(p_square_cumulative_distribution_num_cells = cells);
    Schedule s(r, n); std::string base = name + "/" + kind_name(kind) + " cache " + std::to_string(cache) + " bins " + std::to_string(bins) + " cells " + std::to_string(cells) + " x=" + str_seq(x, 8);
    ld A = 0; Psq ref({0, .25L, .5L, .75L, 1}, true), wref({0, .25L, .5L, .75L, 1}, false); if (flt) ref.live = wref.live = false;
    for (std::size_t i = 0; i < n;)
    {
        S v = x[i]; double wt = w[i]; ++i; A = std::max(A, (ld)std::fabs((ld)v));
        m1(v); m1s(v); m1b(v); m2(v); m2s(v); m3(v); m3s(v);
        w1(v, weight = wt); w1s(v, weight = wt); w2(v, weight = wt); w2s(v, weight = wt); w3(v, weight = wt); w3s(v, weight = wt);
        ref.push((ld)v, 1); wref.push((ld)v, (ld)wt);
        bool last = i == n;
        if (!s.at(r, i) && !(long_case() && s.p < .7 && i % 61 == 0)) continue;
        std::string wh = base + " after " + std::to_string(i);
        if (i >= 5)
        {
            ld g = median(m1), g2 = weighted_median(w1);
            check_eq("median:alias", (ld)median(m1b), g, wh);
            check_eq("median:its estimator", g, (ld)p_square_quantile_for_median(m1), wh);
            check_near("weighted_median:its estimator", g2, (ld)weighted_p_square_quantile_for_median(w1), flt ? eps * A : 0, wh);
            if (ref.live) { observed(); if (!ref.observe([&](PsqState const &q) { return std::fabs(q.h[2] - g) <= ref.tolc(); })) { fail("median:recurrence", "got " + str(g) + " expected " + ref.dump(2) + " " + wh); ref.live = false; } }
            if (wref.live) { observed(); if (!wref.observe([&](PsqState const &q) { return std::fabs(q.h[2] - g2) <= wref.tolc(); })) { fail("weighted_median:recurrence", "got " + str(g2) + " expected " + wref.dump(2) + " " + wh); wref.live = false; } }
        }
        if (i >= cache)
        {
            note("with_density_median");
            ld g = median(m2); Hist h = hist(density(m2));
            judge("with_density_median", cdf_of_density(h), g, eps, A, i, wh);
            check_eq("with_density_median:again", (ld)with_density_median(m2), g, wh);
            note("with_density_weighted_median");
            ld gw = weighted_median(w2); Hist hw = hist(weighted_density(w2));
            judge("with_density_weighted_median", cdf_of_density(hw), gw, eps, A, i, wh);
            check_eq("with_density_weighted_median:again", (ld)median(w2), gw, wh);
            if (last) { check_eq("with_density_median:extracted before", g, (ld)median(m2s), wh); check_eq("with_density_weighted_median:extracted before", gw, (ld)median(w2s), wh); }
            count_event("density crossings judged", 2);
        }
        if (i >= cells + 1)
        {
            note("with_p_square_cumulative_distribution_median");
            ld g = median(m3); Hist h = hist(p_square_cumulative_distribution(m3));
            judge("with_p_square_cumulative_distribution_median", h, g, eps, A, i, wh);
            check_eq("with_p_square_cumulative_distribution_median:again", (ld)with_p_square_cumulative_distribution_median(m3), g, wh);
            note("with_p_square_cumulative_distribution_weighted_median");
            ld gw = weighted_median(w3); Hist hw = hist(weighted_p_square_cumulative_distribution(w3));
            judge("with_p_square_cumulative_distribution_weighted_median", hw, gw, eps, A, i, wh);
            check_eq("with_p_square_cumulative_distribution_weighted_median:again", (ld)median(w3), gw, wh);
            if (last) { check_eq("with_p_square_cumulative_distribution_median:extracted before", g, (ld)median(m3s), wh); check_eq("with_p_square_cumulative_distribution_weighted_median:extracted before", gw, (ld)median(w3s), wh); }
            count_event("distribution crossings judged", 2);
        }
        if (last) { check_eq("median:extracted before", (ld)median(m1), (ld)median(m1s), wh); check_eq("weighted_median:extracted before", (ld)median(w1), (ld)weighted_median(w1s), wh); }
        note("");
    }
    for (S v : x) sig((double)v); sig((std::uint64_t)(cache * 10007 + bins * 101 + cells)); sig(w[n - 1]); nontrivial(n >= 2); count_event("samples", n); show(base);
}
#if PART == 1
SCENARIO(median_double_long, 10) { LongCase l; run<double>(r, "double"); }
SCENARIO(median_double, 1200) { run<double>(r, "double"); }
#else
SCENARIO(median_int_long, 6) { LongCase l; run<int>(r, "int"); }
SCENARIO(median_int, 600) { run<int>(r, "int"); }
SCENARIO(median_float, 300) { run<float>(r, "float"); }
#endif
