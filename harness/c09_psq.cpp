// C09: P-square quantile and cumulative distribution.
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include "psq.hpp"
using namespace boost::accumulators;
using namespace vf;

static std::vector<ld> inc_quantile(ld p) { return {0, p / 2, p, (1 + p) / 2, 1}; }
static std::vector<ld> inc_dist(std::size_t b) { std::vector<ld> v; for (std::size_t i = 0; i <= b; ++i) v.push_back((ld)i / b); return v; }

template<class S> static void judge_q(std::string const &key, Psq &ref, ld got, std::string const &wh)
{
    if (!ref.ready()) return;
    ld sl = 8 * (std::is_same<S, float>::value ? 1.2e-7L : 2.3e-16L) * ref.A;
    check_true(key + ":range", got >= ref.mn - sl && got <= ref.mx + sl, "got " + str(got) + " range " + str(ref.mn) + ".." + str(ref.mx) + " " + wh);
    if (!ref.live || std::is_same<S, float>::value) { inconclusive("reference ended"); return; }
    observed();
    if (!ref.observe([&](PsqState const &s) { return std::fabs(s.h[2] - got) <= ref.tolc(); }))
    { fail(key + ":recurrence", "got " + str(got) + " expected " + ref.dump(2) + " " + wh); ref.live = false; }
}
template<class H> static void judge_d(std::string const &key, Psq &ref, H const &h, bool flt, std::string const &wh)
{
    if (!ref.ready()) return;
    ld eps = flt ? 1.2e-7L : 2.3e-16L, sl = 8 * eps * ref.A;
    std::vector<std::pair<ld, ld> > v; for (auto const &p : h) v.push_back(std::make_pair((ld)p.first, (ld)p.second));
    check_eq(key + ":size", v.size(), ref.M, wh); if (v.size() != ref.M) return;
    check_near(key + ":minimum", v[0].first, ref.mn, 0, wh);
    check_near(key + ":maximum", v.back().first, ref.mx, 0, wh);
    check_near(key + ":last", v.back().second, 1, (ref.n + 8) * 4 * eps, wh);
    bool mono = true; for (std::size_t i = 1; i < v.size(); ++i) mono = mono && v[i].first >= v[i - 1].first - sl && v[i].second >= v[i - 1].second - 4 * eps;
    check_true(key + ":monotone", mono, wh);
    if (!ref.live || flt) { inconclusive("reference ended"); return; }
    observed();
    ld tp = 1e-10L;
    if (!ref.observe([&](PsqState const &s) { for (std::size_t i = 0; i < ref.M; ++i) if (!(std::fabs(s.h[i] - v[i].first) <= ref.tolc() && std::fabs(s.pos[i] / ref.W - v[i].second) <= tp)) return false; return true; }))
    {
        std::string o; for (std::size_t i = 0; i < ref.M; ++i) o += " (" + str((double)v[i].first) + "," + str((double)v[i].second) + ") vs " + ref.dump(i) + "/" + str((double)(ref.st[0].pos[i] / ref.W)) + ";";
        fail(key + ":recurrence", o + " " + wh); ref.live = false;
    }
}
template<class S> static void quantiles(Rng &r, std::string const &name)
{
    bool dy = r.chance(.5), wi = r.chance(.5); double p = gen_prob(r, dy);
    std::size_t n = psq_len(r, 5); int kind; std::vector<S> x = psq_stream<S>(r, n, kind); std::vector<double> w = psq_weights(r, n, wi);
    accumulator_set<S, stats<tag::p_square_quantile> > a(quantile_probability = p);
    accumulator_set<S, stats<tag::p_square_quantile_for_median, tag::p_square_quantile> > b(quantile_probability = p);
    accumulator_set<S, stats<tag::weighted_p_square_quantile>, double> c(quantile_probability = p);
    accumulator_set<S, stats<tag::p_square_quantile>, double> c2(quantile_probability = p);
    accumulator_set<S, stats<tag::weighted_p_square_quantile_for_median>, double> d;
    accumulator_set<S, stats<tag::p_square_quantile> > e;                       // default probability one half
    Psq ra(inc_quantile((ld)p), dy), rm(inc_quantile(.5L), true), rc(inc_quantile((ld)p), dy && wi), rd(inc_quantile(.5L), wi);
    if (std::is_same<S, float>::value) ra.live = false;
    Psq ra2 = ra, rb = rm, re = rm, rc2 = rc;
    Schedule s(r, n); std::string base = name + "/" + kind_name(kind) + " p " + str(p) + " x=" + str_seq(x, 8);
    for (std::size_t i = 0; i < n;)
    {
        S v = x[i]; double wt = w[i]; ++i;
        a(v); b(v); c(v, weight = wt); c2(v, weight = wt); d(v, weight = wt); e(v);
        for (Psq *q : {&ra, &ra2, &rb, &re}) q->push((ld)v, 1);
        for (Psq *q : {&rc, &rc2, &rd}) q->push((ld)v, (ld)wt);
        if (!s.at(r, i) && !(long_case() && s.p < .7 && i % 61 == 0)) continue;
        std::string wh = base + " after " + std::to_string(i);
        judge_q<S>("p_square_quantile", ra, p_square_quantile(a), wh);
        judge_q<S>("p_square_quantile:with median", ra2, p_square_quantile(b), wh);
        judge_q<S>("p_square_quantile_for_median", rb, p_square_quantile_for_median(b), wh);
        judge_q<S>("p_square_quantile:default", re, p_square_quantile(e), wh);
        judge_q<S>("weighted_p_square_quantile", rc, weighted_p_square_quantile(c), wh);
        judge_q<S>("p_square_quantile:weighted set", rc2, p_square_quantile(c2), wh);
        judge_q<S>("weighted_p_square_quantile_for_median", rd, weighted_p_square_quantile_for_median(d), wh);
    }
    for (S v : x) sig((double)v); sig(p); sig(w[n - 1]); nontrivial(n > 5); count_event("samples", n); show(base);
    count_event("rounding ties followed both ways", ra.forks + rc.forks + rd.forks);
    if (ra.live) { count_event("unweighted references alive at the end"); if (n > 60000) count_event("... after more than 60000 samples"); }
    if (rc.live) count_event("weighted references alive at the end");
}
template<class S> static void dists(Rng &r, std::string const &name, bool many = false)
{
    bool wi = r.chance(.6); std::size_t b = r.chance(.5) ? (std::size_t)1 << r.below(5) : 1 + r.below(24);
    if (many) b = r.chance(.5) ? (std::size_t)1 << (5 + r.below(5)) : 25 + r.below(600);
    std::size_t n = psq_len(r, b + 1); int kind; std::vector<S> x = psq_stream<S>(r, n, kind); std::vector<double> w = psq_weights(r, n, wi);
    accumulator_set<S, stats<tag::p_square_cumulative_distribution> > a(tag::p_square_cumulative_distribution::num_cells = b);
    accumulator_set<S, stats<tag::mean, tag::p_square_cumulative_distribution> > a2(p_square_cumulative_distribution_num_cells = b);
    accumulator_set<S, stats<tag::weighted_p_square_cumulative_distribution>, double> c(tag::weighted_p_square_cumulative_distribution::num_cells = b);
    accumulator_set<S, stats<tag::p_square_cumulative_distribution>, double> c2(tag::p_square_cumulative_distribution::num_cells = b);
    bool pow2 = (b & (b - 1)) == 0; bool flt = std::is_same<S, float>::value;
    Psq ra(inc_dist(b), pow2), rc(inc_dist(b), pow2 && wi); if (flt) ra.live = rc.live = false;
    Psq ra2 = ra, rc2 = rc;
    Schedule s(r, n); std::string base = name + "/" + kind_name(kind) + " cells " + std::to_string(b) + " x=" + str_seq(x, 8);
    for (std::size_t i = 0; i < n;)
    {
        S v = x[i]; double wt = w[i]; ++i;
        a(v); a2(v); c(v, weight = wt); c2(v, weight = wt);
        ra.push((ld)v, 1); ra2.push((ld)v, 1); rc.push((ld)v, (ld)wt); rc2.push((ld)v, (ld)wt);
        if (!s.at(r, i) && !(long_case() && s.p < .7 && i % 61 == 0)) continue;
        std::string wh = base + " after " + std::to_string(i);
        judge_d("p_square_cumulative_distribution", ra, p_square_cumulative_distribution(a), flt, wh);
        judge_d("p_square_cumulative_distribution:with mean", ra2, p_square_cumulative_distribution(a2), flt, wh);
        judge_d("weighted_p_square_cumulative_distribution", rc, weighted_p_square_cumulative_distribution(c), flt, wh);
        judge_d("p_square_cumulative_distribution:weighted set", rc2, p_square_cumulative_distribution(c2), flt, wh);
    }
    for (S v : x) sig((double)v); sig((std::uint64_t)b); sig(w[n - 1]); nontrivial(n > b + 1); count_event("samples", n); show(base);
    count_event("rounding ties followed both ways", ra.forks + rc.forks);
    if (ra.live) { count_event("unweighted references alive at the end"); if (n > 60000) count_event("... after more than 60000 samples"); }
    if (rc.live) count_event("weighted references alive at the end");
}
#if PART == 1
SCENARIO(quantile_double, 1200) { quantiles<double>(r, "double"); }
SCENARIO(quantile_long, 12) { LongCase l; quantiles<double>(r, "double"); }
SCENARIO(quantile_int, 600) { quantiles<int>(r, "int"); }
SCENARIO(quantile_float, 200) { quantiles<float>(r, "float"); }
#else
SCENARIO(distribution_double, 1200) { dists<double>(r, "double"); }
SCENARIO(distribution_long, 12) { LongCase l; dists<double>(r, "double"); }
SCENARIO(distribution_many, 40) { dists<double>(r, "double", true); }
SCENARIO(distribution_int, 600) { dists<int>(r, "int"); }
SCENARIO(distribution_float, 200) { dists<float>(r, "float"); }
#endif
