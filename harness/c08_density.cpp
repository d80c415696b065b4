// C08: histograms conserve every sample and put it in its own bin.
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include "ref.hpp"
using namespace boost::accumulators;
using namespace vf;

template<class H> static std::vector<std::pair<double, double> > copy_of(H h) { std::vector<std::pair<double, double> > v; for (auto const &p : h) v.push_back(std::make_pair((double)p.first, (double)p.second)); return v; }

// x: history, w: weights; exact: bin arithmetic involves no rounding at all
template<class S> static void judge(std::string const &key, std::vector<std::pair<double, double> > const &h, std::vector<std::pair<double, double> > &prev,
    std::vector<S> const &x, std::vector<double> const &w, std::size_t n, std::size_t cache, std::size_t bins, bool exact, bool wexact, std::string const &wh)
{
    check_eq(key + ":bins", h.size(), bins + 2, wh);
    if (h.size() != bins + 2) return;
    ld eps = std::is_same<S, float>::value ? 1.2e-7L : 2.3e-16L;
    ld mn = x[0], mx = x[0], A = 0, W = 0;
    for (std::size_t i = 0; i < cache; ++i) { mn = std::min(mn, (ld)x[i]); mx = std::max(mx, (ld)x[i]); }
    for (std::size_t i = 0; i < n; ++i) { A = std::max(A, (ld)std::fabs((ld)x[i])); W += w[i]; }
    ld size = (mx - mn) / bins, slack = exact ? 0 : 16 * eps * (std::fabs(mn) + std::fabs(mx) + (mx - mn));
    for (std::size_t i = 0; i < bins + 2; ++i) check_near(key + ":positions", h[i].first, mn + ((ld)i - 1) * size, slack, wh + " bin " + std::to_string(i));
    if (!prev.empty()) { bool same_pos = true; for (std::size_t i = 0; i < h.size(); ++i) same_pos = same_pos && h[i].first == prev[i].first; check_true(key + ":positions moved", same_pos, wh); }
    prev = h;
    // mass per bin: definitely inside, and possibly inside
    std::vector<ld> def(bins + 2, 0), amb(bins + 2, 0);
    ld size_s = slack;
    for (std::size_t k = 0; k < n; ++k)
    {
        ld v = x[k]; std::size_t b;
        if (v < h[1].first) b = 0; else if (v >= h[bins + 1].first) b = bins + 1;
        else { b = 1; std::size_t hi = bins + 1; while (hi - b > 1) { std::size_t m = (b + hi) / 2; if (v >= h[m].first) b = m; else hi = m; } }
        bool near_edge = false;
        if (size_s > 0) for (std::size_t q = (b ? b : 1); q <= b + 1 && q <= bins + 1; ++q) if (std::fabs(v - h[q].first) <= size_s) near_edge = true;
        if (!near_edge) def[b] += w[k];
        else { for (std::size_t q = 0; q < bins + 2; ++q) { ld lo = q == 0 ? -1e300L : (ld)h[q].first, hi = q == bins + 1 ? 1e300L : (ld)h[q + 1].first; if (v >= lo - size_s && v < hi + size_s) amb[q] += w[k]; } }
    }
    ld tot = 0, tol = wexact ? 4 * eps * (W > 1 ? 1 : 1) * (n + 4) * 0 + 4 * eps : (n + bins + 8) * 4 * eps;
    if (!exact) tol += 4 * eps;
    for (std::size_t q = 0; q < bins + 2; ++q)
    {
        ld f = h[q].second; tot += f; observed();
        if (!(f >= def[q] / W - tol && f <= (def[q] + amb[q]) / W + tol))
            fail(key + ":fraction", "bin " + std::to_string(q) + " at " + str(h[q].first) + " reports " + str(f) + " holds " + str(def[q] / W) + (amb[q] > 0 ? " to " + str((def[q] + amb[q]) / W) : "") + " " + wh);
    }
    check_near(key + ":sum of fractions", tot, 1, (bins + 4) * 4 * eps + tol, wh);
}
template<class S> static void typed(Rng &r, std::string const &name)
{
    bool exact = r.chance(.5);
    std::size_t bins = long_case() && r.chance(.5) ? (std::size_t)1 << r.below(12) : exact ? (std::size_t)1 << r.below(5) : 1 + r.below(40), cache = long_case() && r.chance(.5) ? 1 + r.below(70000) : r.chance(.2) ? 1 + r.below(3) : 1 + r.below(80);
    std::size_t n = long_case() ? cache + long_len(r) : r.chance(.3) ? cache + r.below(3) : cache + r.below(r.chance(.1) ? 3000 : 300);
    int kind = (int)r.below(NKINDS);
    std::vector<double> d = gen(r, n, exact && r.chance(.5) ? (r.chance(.5) ? INTS : FEW) : kind, std::is_integral<S>::value ? 20 : r.chance(.5) ? 1 : std::pow(10.0, (double)r.range(-6, 6)));
    std::vector<S> x(n);
    for (std::size_t i = 0; i < n; ++i) { double v = d[i]; if (exact || std::is_integral<S>::value) v = std::floor(std::fabs(v) > 1e5 ? (v < 0 ? -1e5 : 1e5) : v); x[i] = (S)v; }
    if (exact && !std::is_integral<S>::value && r.chance(.5)) for (S &v : x) v = v / (S)16;
    std::vector<double> one(n, 1.0), w(n);
    bool wint = r.chance(.5);
    for (double &v : w) v = wint ? (double)r.range(0, 6) : r.uni() * 2;
    w[0] = 1;
    accumulator_set<S, stats<tag::density> > a(tag::density::cache_size = cache, tag::density::num_bins = bins);
    accumulator_set<S, stats<tag::density, tag::mean> > a2(density_num_bins = bins, density_cache_size = cache);
    accumulator_set<S, stats<tag::density>, double> b(tag::density::cache_size = cache, tag::density::num_bins = bins);
    accumulator_set<S, stats<tag::weighted_density>, double> c(tag::weighted_density::cache_size = cache, tag::weighted_density::num_bins = bins);
    std::vector<std::pair<double, double> > pa, pa2, pb, pc;
    Schedule s(r, n); std::string base = name + "/" + kind_name(kind) + (exact ? " exact" : "") + " cache " + std::to_string(cache) + " bins " + std::to_string(bins) + " x=" + str_seq(x, 8);
    for (std::size_t i = 0; i < n;)
    {
        S v = x[i]; double wi = w[i];
        a(v); a2(v); b(v, weight = wi); c(v, weight = wi); ++i;
        if (!s.at(r, i) && i != cache && !(i > cache && r.chance(2.0 / n))) continue;
        auto ha = copy_of(density(a)), ha2 = copy_of(density(a2)), hb = copy_of(density(b)), hc = copy_of(weighted_density(c));
        if (i < cache) { count_event("extracted before the cache was full"); continue; }
        std::string wh = base + " after " + std::to_string(i);
        judge("density", ha, pa, x, one, i, cache, bins, exact, true, wh);
        judge("density:with mean", ha2, pa2, x, one, i, cache, bins, exact, true, wh);
        judge("density:weighted set", hb, pb, x, w, i, cache, bins, exact, wint, wh);
        judge("weighted_density", hc, pc, x, w, i, cache, bins, exact, wint, wh);
    }
    for (std::size_t k = 0; k < n; ++k) { sig((double)x[k]); sig(w[k]); } sig((std::uint64_t)(cache * 1000 + bins)); sig(hash_str(name)); nontrivial(n >= 2);
    count_event("samples binned", n); show(base);
}
#if PART == 1
SCENARIO(density_double, 1500) { typed<double>(r, "double"); }
SCENARIO(density_long, 10) { LongCase l; typed<double>(r, "double"); }
SCENARIO(density_int_long, 6) { LongCase l; typed<int>(r, "int"); }
SCENARIO(density_int, 1000) { typed<int>(r, "int"); }
#else
SCENARIO(density_float, 500) { typed<float>(r, "float"); }
// weights of a narrower type than the samples must not cost the positions their precision
SCENARIO(density_narrow_weights, 400)
{
    std::size_t bins = 1 + r.below(12), cache = 1 + r.below(30), n = cache + r.below(100); double off = (r.chance(.5) ? 1 : -1) * std::pow(10.0, (double)r.range(2, 9));
    std::vector<double> x = gen(r, n, (int)r.below(NKINDS)), w(n); for (double &v : x) v = v + off; for (double &v : w) v = (double)r.range(1, 6);
    accumulator_set<double, stats<tag::density>, float> a(density_cache_size = cache, density_num_bins = bins);
    accumulator_set<double, stats<tag::weighted_density>, int> b(density_cache_size = cache, density_num_bins = bins);
    std::vector<std::pair<double, double> > pa, pb; Schedule s(r, n); std::string base = "double samples, narrow weights, cache " + std::to_string(cache) + " bins " + std::to_string(bins) + " x=" + str_seq(x, 8);
    for (std::size_t i = 0; i < n;)
    {
        a(x[i], weight = (float)w[i]); b(x[i], weight = (int)w[i]); ++i;
        if (!s.at(r, i) || i < cache) continue;
        std::string wh = base + " after " + std::to_string(i);
        judge("density:float weights", copy_of(density(a)), pa, x, w, i, cache, bins, false, true, wh);
        judge("density:int weights", copy_of(weighted_density(b)), pb, x, w, i, cache, bins, false, true, wh);
    }
    sig_stream(x); sig((std::uint64_t)(cache * 1000 + bins)); nontrivial(n >= 2);
}
#endif
