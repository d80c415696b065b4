// C10: extended P-square estimates and their interpolation.
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include "psq.hpp"
using namespace boost::accumulators;
using namespace vf;

static std::vector<ld> inc_ext(std::vector<double> const &p)
{
    std::vector<ld> v(2 * p.size() + 3); v[0] = 0; v.back() = 1;
    for (std::size_t i = 0; i < p.size(); ++i) v[2 * i + 2] = p[i];
    for (std::size_t i = 0; i <= p.size(); ++i) v[2 * i + 1] = (v[2 * i] + v[2 * i + 2]) / 2;
    return v;
}
template<class R> static std::vector<ld> judge(std::string const &key, Psq &ref, std::size_t m, R const &range, bool flt, std::string const &wh)
{
    std::vector<ld> v; for (std::size_t i = 0; i < (std::size_t)range.size(); ++i) v.push_back((ld)range[i]);
    check_eq(key + ":size", v.size(), m, wh);
    if (!ref.ready() || v.size() != m) return v;
    ld sl = 8 * (flt ? 1.2e-7L : 2.3e-16L) * ref.A;
    for (std::size_t i = 0; i < m; ++i)
    {
        check_true(key + ":range", v[i] >= ref.mn - sl && v[i] <= ref.mx + sl, wh);
        if (i) check_true(key + ":monotone", v[i] >= v[i - 1] - sl, wh);
    }
    if (!ref.live || flt) { inconclusive("reference ended"); return v; }
    observed();
    if (!ref.observe([&](PsqState const &s) { for (std::size_t i = 0; i < m; ++i) if (!(std::fabs(s.h[2 * i + 2] - v[i]) <= ref.tolc())) return false; return true; }))
    {
        std::string o; for (std::size_t i = 0; i < m; ++i) o += " " + str((double)v[i]) + " vs " + ref.dump(2 * i + 2) + ";";
        fail(key + ":recurrence", o + " " + wh); ref.live = false;
    }
    return v;
}
static void interp(std::string const &key, bool quad, std::vector<double> const &p, std::vector<ld> const &h, double q, ld got, ld eps, std::string const &wh0)
{
    std::string wh = wh0 + " q " + str(q);
    if (q < p[0] || q > p.back()) { check_true(key + ":outside", got != got, "got " + str(got) + " " + wh); return; }
    std::size_t i = 0; while (p[i] < q) ++i;
    if (p[i] == q) { check_near(key + ":tracked", got, h[i], eps > 1e-10L ? 4 * eps * std::fabs(h[i]) : 0, wh); return; }
    if (!quad || p.size() < 3)
    {
        ld a = (h[i] - h[i - 1]) / ((ld)p[i] - p[i - 1]), e = h[i - 1] + a * ((ld)q - p[i - 1]);
        check_near(key + ":linear", got, e, 32 * eps * (std::fabs(h[i]) + std::fabs(h[i - 1]) + std::fabs(a)), wh);
        return;
    }
    ld up = (ld)p[i] - q, dn = (ld)q - p[i - 1]; bool ok = false; std::string ex; int tried = 0;
    for (int k = 0; k < 2; ++k)       // k=0: with the next probability above, k=1: with the one below
    {
        bool must = k == 0 ? (i == 1 || up <= dn) && i + 1 < p.size() : !((i == 1 || up <= dn) && i + 1 < p.size());
        bool either = i > 1 && i + 1 < p.size() && std::fabs(up - dn) < 4 * eps;
        if (!must && !either) continue;
        std::size_t z = k == 0 ? i - 1 : i - 2; ld P[3], H[3], e = 0, cond = 0;
        for (int j = 0; j < 3; ++j) { P[j] = p[z + j]; H[j] = h[z + j]; }
        for (int j = 0; j < 3; ++j) { ld l = 1, c = 1; for (int t = 0; t < 3; ++t) if (t != j) { l *= (q - P[t]) / (P[j] - P[t]); c /= std::fabs(P[j] - P[t]); } e += l * H[j]; cond += std::fabs(H[j]) * c * 4; }
        ld mind = std::min(P[1] - P[0], P[2] - P[1]); cond = cond + (std::fabs(H[0]) + std::fabs(H[1]) + std::fabs(H[2])) * (1 + 1 / mind + 1 / (mind * (P[2] - P[0]))) ;
        ++tried; ex += " " + str(e); if (near(got, e, 64 * eps * cond * (1 + 1 / mind))) ok = true;
    }
    check_true(key + ":quadratic", ok && tried, "got " + str(got) + " expected" + ex + " " + wh);
}
template<class S> static void run(Rng &r, std::string const &name, bool many = false)
{
    std::size_t m = 1 + r.below(r.chance(.3) ? 3 : 8); bool dy = r.chance(.6), wi = r.chance(.5);
    if (many) m = dy ? 9 + r.below(32) : 9 + r.below(150);
    std::set<double> ps; while (ps.size() < m) { double v = gen_prob(r, dy); bool far = true; for (double u : ps) if (std::fabs(u - v) < 1e-4) far = false; if (far) ps.insert(v); }
    if (std::is_same<S, float>::value) { std::set<double> q; for (double v : ps) q.insert((double)(float)v); ps = q; m = q.size(); }
    std::vector<double> p(ps.begin(), ps.end());
    std::size_t M = 2 * m + 3, n = psq_len(r, M); int kind; std::vector<S> x = psq_stream<S>(r, n, kind); std::vector<double> w = psq_weights(r, n, wi);
    bool flt = std::is_same<S, float>::value; ld eps = flt ? 1.2e-7L : 2.3e-16L;
    accumulator_set<S, stats<tag::extended_p_square> > a(tag::extended_p_square::probabilities = p);
    accumulator_set<S, stats<tag::extended_p_square_quantile> > l(extended_p_square_probabilities = p);
    accumulator_set<S, stats<tag::extended_p_square_quantile(quadratic)> > q(extended_p_square_probabilities = p);
    accumulator_set<S, stats<tag::weighted_extended_p_square>, double> wa(extended_p_square_probabilities = p);
    accumulator_set<S, stats<tag::extended_p_square_quantile>, double> wl(extended_p_square_probabilities = p);
    accumulator_set<S, stats<tag::weighted_extended_p_square_quantile(quadratic)>, double> wq(extended_p_square_probabilities = p);
    Psq ra(inc_ext(p), dy), rw(inc_ext(p), dy && wi); if (flt) ra.live = rw.live = false;
    Psq rl = ra, rq = ra, rwl = rw, rwq = rw;
    Schedule s(r, n); std::string base = name + "/" + kind_name(kind) + " probs " + str_seq(p) + " x=" + str_seq(x, 8);
    for (std::size_t i = 0; i < n;)
    {
        S v = x[i]; double wt = w[i]; ++i;
        a(v); l(v); q(v); wa(v, weight = wt); wl(v, weight = wt); wq(v, weight = wt);
        ra.push((ld)v, 1); rl.push((ld)v, 1); rq.push((ld)v, 1); rw.push((ld)v, (ld)wt); rwl.push((ld)v, (ld)wt); rwq.push((ld)v, (ld)wt);
        if (!s.at(r, i) && !(long_case() && s.p < .7 && i % 61 == 0)) continue;
        std::string wh = base + " after " + std::to_string(i);
        judge("extended_p_square", ra, m, extended_p_square(a), flt, wh);
        judge("weighted_extended_p_square", rw, m, weighted_extended_p_square(wa), flt, wh);
        auto hl = judge("extended_p_square:linear", rl, m, extended_p_square(l), flt, wh), hq = judge("extended_p_square:quadratic", rq, m, extended_p_square(q), flt, wh);
        auto hwl = judge("weighted_extended_p_square:linear", rwl, m, weighted_extended_p_square(wl), flt, wh), hwq = judge("weighted_extended_p_square:quadratic", rwq, m, weighted_extended_p_square(wq), flt, wh);
        if (!ra.ready()) continue;
        for (int k = 0; k < 4; ++k)
        {
            double t = r.chance(.25) ? p[r.below(m)] : r.chance(.15) ? p[0] * r.uni() : r.chance(.15) ? p.back() + (1 - p.back()) * r.uni() : p[0] + (p.back() - p[0]) * r.uni();
            if (r.chance(.1) && m > 1) { std::size_t j = r.below(m - 1); t = (p[j] + p[j + 1]) / 2; }
            if (flt) t = (float)t;
            interp("extended_p_square_quantile", false, p, hl, t, quantile(l, quantile_probability = t), eps, wh);
            interp("extended_p_square_quantile(quadratic)", true, p, hq, t, quantile(q, quantile_probability = t), eps, wh);
            interp("weighted_extended_p_square_quantile", false, p, hwl, t, quantile(wl, quantile_probability = t), eps, wh);
            interp("weighted_extended_p_square_quantile(quadratic)", true, p, hwq, t, weighted_extended_p_square_quantile_quadratic(wq, quantile_probability = t), eps, wh);
        }
    }
    for (S v : x) sig((double)v); for (double v : p) sig(v); sig(w[n - 1]); nontrivial(n > M); count_event("samples", n); show(base);
    count_event("rounding ties followed both ways", ra.forks + rw.forks);
    if (ra.live) { count_event("unweighted references alive at the end"); if (n > 60000) count_event("... after more than 60000 samples"); }
    if (rw.live) count_event("weighted references alive at the end");
}
#if PART == 1
SCENARIO(extended_long, 10) { LongCase l; run<double>(r, "double"); }
SCENARIO(extended_many, 40) { run<double>(r, "double", true); }
SCENARIO(extended_double, 1200) { run<double>(r, "double"); }
#else
SCENARIO(extended_int_long, 6) { LongCase l; run<int>(r, "int"); }
SCENARIO(extended_int, 500) { run<int>(r, "int"); }
SCENARIO(extended_float, 200) { run<float>(r, "float"); }
#endif
