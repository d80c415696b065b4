// C12: peaks-over-threshold fits and what is derived from them.
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include "tails.hpp"
using namespace boost::accumulators;
using namespace vf;

struct Fit { ld u, b, xi; };
static Fit fit(ld mu, ld s2, ld thr, ld ptail)
{
    ld t = (mu - thr) * (mu - thr) / s2; Fit f; f.xi = .5L * (1 - t);
    ld bh = .5L * (mu - thr) * (1 + t); f.b = bh * std::pow(ptail, f.xi);
    f.u = thr - f.b * (std::pow(ptail, -f.xi) - 1) / f.xi; return f;
}
// members: the (mirrored) exceedances with weights; thr mirrored threshold; returns false if ill-conditioned
static bool expect(std::vector<std::pair<ld, ld> > const &e, ld thr, ld ptail, ld A, ld eps, std::size_t n, Fit &f, Fit &tol)
{
    ld W = 0, mu = 0, s2 = 0; if (e.empty()) return false;
    for (auto &p : e) { W += p.second; mu += p.first * p.second; } mu /= W;
    for (auto &p : e) s2 += p.second * (p.first - mu) * (p.first - mu); s2 /= W;
    ld dmu = (n + 8) * 2 * eps * A, ds = (n + 8) * 6 * eps * A * A;
    if (!(s2 > 0) || ds / s2 > 1e-5L || !(mu - thr > 0) || dmu / (mu - thr) > 1e-5L) return false;
    f = fit(mu, s2, thr, ptail); if (std::fabs(f.xi) < 1e-4L) return false;
    ld pw = std::pow(ptail, -f.xi); if (!(pw < 1e60L) || !(pw > 1e-60L)) return false;
    tol.u = tol.b = tol.xi = 0;
    for (int k = 0; k < 4; ++k)
    {
        Fit g = fit(mu + (k & 1 ? dmu : -dmu), s2 + (k & 2 ? ds : -ds), thr, ptail * (1 + (k & 1 ? (ld)1 : (ld)-1) * (ld)(n + 8) * eps));
        if ((g.xi > 0) != (f.xi > 0)) return false;
        tol.u = std::max(tol.u, std::fabs(g.u - f.u)); tol.b = std::max(tol.b, std::fabs(g.b - f.b)); tol.xi = std::max(tol.xi, std::fabs(g.xi - f.xi));
    }
    ld c = 1 + std::fabs(f.xi) * (1 + std::fabs(std::log(ptail))) ;
    tol.xi = 3 * tol.xi + 32 * eps * (1 + std::fabs(f.xi)); tol.b = 3 * tol.b + 64 * eps * c * std::fabs(f.b);
    tol.u = 3 * tol.u + 64 * eps * (std::fabs(thr) + std::fabs(f.b / f.xi) * (pw + 1) * c);
    return true;
}
template<class T> static std::string tup(T const &t) { return "(" + str((ld)boost::get<0>(t)) + "," + str((ld)boost::get<1>(t)) + "," + str((ld)boost::get<2>(t)) + ")"; }
template<class T> static bool all_nan(T const &t) { return boost::get<0>(t) != boost::get<0>(t) && boost::get<1>(t) != boost::get<1>(t) && boost::get<2>(t) != boost::get<2>(t); }
template<class T> static bool matches(T const &t, Fit const &f, Fit const &tol) { return near(boost::get<0>(t), f.u, tol.u) && near(boost::get<1>(t), f.b, tol.b) && near(boost::get<2>(t), f.xi, tol.xi); }
static std::string show_fit(Fit const &f) { return "(" + str(f.u) + "," + str(f.b) + "," + str(f.xi) + ")"; }

// derived values from the reported parameters
template<class T> static void derived(std::string const &key, bool lft, T const &t, ld q, ld tm, double p, ld eps, std::string const &wh)
{
    ld u = boost::get<0>(t), b = boost::get<1>(t), xi = boost::get<2>(t), a = lft ? (ld)p : 1 - (ld)p, s = lft ? -1 : 1;
    if (!(u == u) || !(b == b) || !(xi == xi)) { check_true(key + ":NaN fit", q != q && tm != tm, "quantile " + str(q) + " tail mean " + str(tm) + " " + wh); return; }
    ld pw = std::pow(a, -xi); if (!(std::fabs(xi) > 1e-6L) || !(pw < 1e100L) || std::fabs(xi - 1) < 1e-6L || std::isinf(xi)) { inconclusive("derived value ill-conditioned"); return; }
    ld e = s * (u + b / xi * (pw - 1)), tol = 64 * eps * (std::fabs(u) + std::fabs(b / xi) * (pw * (1 + std::fabs(xi * std::log(a)) + std::fabs(xi) / a) + 1));
    check_near(key + ":quantile", q, e, tol, "fit " + tup(t) + " p " + str(p) + " " + wh);
    ld e2 = e - s * b / (xi - 1) * pw, tol2 = tol + 64 * eps * std::fabs(b / (xi - 1)) * pw * (1 + std::fabs(xi * std::log(a)) + std::fabs(xi) / a + 1 / std::fabs(xi - 1));
    check_near(key + ":tail mean", tm, e2, tol2, "fit " + tup(t) + " p " + str(p) + " " + wh);
}
template<class S, class Side> static void run(Rng &r, std::string const &name)
{
    bool lft = std::is_same<Side, left>::value, flt = std::is_same<S, float>::value; ld eps = flt ? 1.2e-7L : 2.3e-16L, sg = lft ? -1 : 1;
    std::size_t n = long_case() ? long_len(r) : r.chance(.2) ? r.below(8) : 5 + r.below(r.chance(.1) ? 1500 : 200);
    bool distinct = r.chance(.7); std::vector<S> x = tail_stream<S>(r, n, distinct);
    if (std::is_integral<S>::value) for (S &v : x) v = (S)((long)v % 40000);
    distinct = std::set<S>(x.begin(), x.end()).size() == n;
    std::vector<double> w(n); bool wint = r.chance(.5); for (double &v : w) v = wint ? (double)r.range(1, 6) : r.uni() + .01;
    // threshold value: somewhere in the stream's range, sometimes beyond
    S thr; { std::vector<S> z(x); std::sort(z.begin(), z.end()); thr = n ? z[r.below(n)] : S(0); if (r.chance(.1) && n) thr = lft ? (S)(z[0] - 1) : (S)(z.back() + 1); if (!std::is_integral<S>::value && r.chance(.5)) thr += (S).37; }
    double ptail = r.chance(.05) ? 0 : r.chance(.3) ? (double)r.range(1, 16) / 16 : r.uni(); double pthr = lft ? ptail : 1 - ptail;
    std::size_t cache = gen_cache(r, n);
    accumulator_set<S, stats<tag::peaks_over_threshold<Side>(with_threshold_value)> > a(pot_threshold_value = thr);
    accumulator_set<S, stats<tag::pot_quantile<Side>, tag::pot_tail_mean<Side> > > a2(tag::peaks_over_threshold<Side>::threshold_value = thr), a2s(pot_threshold_value = thr);
    accumulator_set<S, stats<tag::weighted_pot_tail_mean<Side>, tag::weighted_pot_quantile<Side> >, double> b(pot_threshold_value = thr), bs(pot_threshold_value = thr);
    accumulator_set<S, stats<tag::peaks_over_threshold<Side>(with_threshold_probability)> > c(tag::tail<Side>::cache_size = cache, pot_threshold_probability = pthr);
    accumulator_set<S, stats<tag::pot_tail_mean<Side>(with_threshold_probability)> > c2(pot_threshold_probability = pthr, tag::tail<Side>::cache_size = cache), c2s(pot_threshold_probability = pthr, tag::tail<Side>::cache_size = cache);
    accumulator_set<S, stats<tag::weighted_pot_tail_mean<Side>(with_threshold_probability)>, double> d(tag::tail<Side>::cache_size = cache, pot_threshold_probability = pthr), ds(tag::tail<Side>::cache_size = cache, pot_threshold_probability = pthr);
    Schedule s(r, n); std::string base = name + (lft ? "/left" : "/right") + " threshold " + str((ld)thr) + " probability " + str(pthr) + " cache " + std::to_string(cache) + " x=" + str_seq(x, 8);
    ld A = std::fabs((ld)thr), W = 0;
    for (std::size_t i = 0; i < n;)
    {
        S v = x[i]; double wt = w[i]; ++i; A = std::max(A, (ld)std::fabs((ld)v)); W += wt;
        a(v); a2(v); a2s(v); b(v, weight = wt); bs(v, weight = wt); c(v); c2(v); c2s(v); d(v, weight = wt); ds(v, weight = wt);
        if (!s.at(r, i)) continue;
        std::string wh = base + " after " + std::to_string(i); double p = lft ? r.uni_open() * .2 : 1 - .2 * r.uni_open();
        // ---- explicit threshold
        std::vector<std::pair<ld, ld> > e, ew; ld wu = 0;
        for (std::size_t k = 0; k < i; ++k) if (sg * x[k] > sg * thr) { e.push_back(std::make_pair(sg * (ld)x[k], (ld)1)); ew.push_back(std::make_pair(sg * (ld)x[k], (ld)w[k])); wu += w[k]; }
        Fit f, tol; note("value");
        auto ta = peaks_over_threshold(a); auto t2 = peaks_over_threshold(a2); auto tb = peaks_over_threshold(b);
        if (expect(e, sg * thr, (ld)e.size() / i, A, eps, i, f, tol))
        {
            check_true("peaks_over_threshold", matches(ta, f, tol), "got " + tup(ta) + " expected " + show_fit(f) + " +- " + show_fit(tol) + " " + wh);
            check_true("peaks_over_threshold:in pot_quantile", matches(t2, f, tol), "got " + tup(t2) + " expected " + show_fit(f) + " +- " + show_fit(tol) + " " + wh); count_event("fits judged", 2);
        }
        else inconclusive("too few or degenerate exceedances");
        if (expect(ew, sg * thr, wu / W, A, eps, i, f, tol)) { check_true("weighted_peaks_over_threshold", matches(tb, f, tol), "got " + tup(tb) + " expected " + show_fit(f) + " +- " + show_fit(tol) + " " + wh); count_event("fits judged"); }
        derived("pot", lft, t2, quantile(a2, quantile_probability = p), tail_mean(a2, quantile_probability = p), p, eps, wh);
        derived("weighted_pot", lft, tb, quantile(b, quantile_probability = p), tail_mean(b, quantile_probability = p), p, eps, wh);
        // ---- threshold probability
        std::vector<std::size_t> ord(i); for (std::size_t k = 0; k < i; ++k) ord[k] = k;
        std::stable_sort(ord.begin(), ord.end(), [&](std::size_t p_, std::size_t q_) { return sg * x[p_] > sg * x[q_]; });
        ld pt = lft ? (ld)pthr : 1 - (ld)pthr; note("probability");
        auto tc = peaks_over_threshold(c); auto tc2 = peaks_over_threshold(c2); auto td = peaks_over_threshold(d);
        check_true("peaks_over_threshold_prob:again", same(boost::get<0>(tc), boost::get<0>(peaks_over_threshold(c))) && same(boost::get<1>(tc), boost::get<1>(peaks_over_threshold(c))), wh);
        check_true("weighted_peaks_over_threshold_prob:again", same(boost::get<0>(td), boost::get<0>(peaks_over_threshold(d))) && same(boost::get<1>(td), boost::get<1>(peaks_over_threshold(d))), wh);
        std::size_t held = std::min(cache, i);
        {
            ld z = (ld)i * pt, sl = 8 * 2.3e-16L * i; std::set<std::size_t> ranks; for (ld q : {z - sl, z, z + sl}) ranks.insert((std::size_t)std::max((ld)0, std::ceil(q)));
            bool ok = false, judged = true; std::string ex;
            for (std::size_t m : ranks)
            {
                if (m == 0 || m >= held) { ok = ok || (all_nan(tc) && all_nan(tc2)); ex += " NaN"; }       // the cache cannot answer
                if (m == 0 || m > held) continue;
                std::vector<std::pair<ld, ld> > g; for (std::size_t k = 0; k < m; ++k) g.push_back(std::make_pair(sg * (ld)x[ord[k]], (ld)1));
                if (!expect(g, g.back().first, pt, A, eps, i, f, tol)) { judged = false; continue; }
                ok = ok || (matches(tc, f, tol) && matches(tc2, f, tol)); ex += " " + show_fit(f);
            }
            if (judged || ok) { check_true("peaks_over_threshold_prob", ok, "got " + tup(tc) + " and " + tup(tc2) + " expected" + ex + " " + wh); count_event("fits judged"); } else inconclusive("too few or degenerate exceedances");
        }
        if (distinct)
        {
            ld z = W * pt, sl = (i + 8) * 4 * 2.3e-16L * W; bool ok = false, judged = true; std::string ex; ld cum = 0; std::size_t m = 0;
            if (z <= sl) { ok = ok || all_nan(td); ex += " NaN"; }
            for (std::vector<std::pair<ld, ld> > g; m < i; )
            {
                bool need = cum < z + sl, may_stop = cum >= z - sl;
                if (m > 0 && may_stop && m <= held) { if (!expect(g, g.back().first, pt, A, eps, i, f, tol)) judged = false; else { ok = ok || matches(td, f, tol); ex += " " + show_fit(f); } }
                if (!need) break;
                if (m >= held) { ok = ok || all_nan(td); ex += " NaN"; break; }
                g.push_back(std::make_pair(sg * (ld)x[ord[m]], (ld)w[ord[m]])); cum += w[ord[m]]; ++m;
                if (m == i) { if (cum >= z - sl) { if (!expect(g, g.back().first, pt, A, eps, i, f, tol)) judged = false; else { ok = ok || matches(td, f, tol); ex += " " + show_fit(f); } } if (cum < z + sl) { ok = ok || all_nan(td); ex += " NaN"; } }
            }
            if (judged || ok) { check_true("weighted_peaks_over_threshold_prob", ok, "got " + tup(td) + " expected" + ex + " " + wh); count_event("fits judged"); } else inconclusive("too few or degenerate exceedances");
        }
        derived("pot_prob", lft, tc2, quantile(c2, quantile_probability = p), tail_mean(c2, quantile_probability = p), p, eps, wh);
        derived("weighted_pot_prob", lft, td, quantile(d, quantile_probability = p), tail_mean(d, quantile_probability = p), p, eps, wh);
        if (i == n)
        {
            // never looked at before, same data: same parameters
            auto same3 = [&](char const *k, auto const &g, auto const &h) { check_true(std::string(k) + ":extracted before", same(boost::get<0>(g), boost::get<0>(h)) && same(boost::get<1>(g), boost::get<1>(h)) && same(boost::get<2>(g), boost::get<2>(h)), tup(g) + " vs " + tup(h) + " " + wh); };
            same3("peaks_over_threshold", t2, peaks_over_threshold(a2s)); same3("weighted_peaks_over_threshold", tb, peaks_over_threshold(bs));
            same3("peaks_over_threshold_prob", tc2, peaks_over_threshold(c2s)); same3("weighted_peaks_over_threshold_prob", td, peaks_over_threshold(ds));
        }
        note("");
    }
    for (S v : x) sig((double)v); sig(pthr); sig((double)thr); sig((std::uint64_t)cache); nontrivial(n >= 2); count_event("samples", n); show(base);
}
#if PART == 1
SCENARIO(pot_double_right_long, 8) { LongCase l; run<double, right>(r, "double"); }
SCENARIO(pot_double_right, 1000) { run<double, right>(r, "double"); }
#elif PART == 2
SCENARIO(pot_double_left_long, 8) { LongCase l; run<double, left>(r, "double"); }
SCENARIO(pot_double_left, 1000) { run<double, left>(r, "double"); }
#else
SCENARIO(pot_int_right, 300) { run<int, right>(r, "int"); }
SCENARIO(pot_int_left, 300) { run<int, left>(r, "int"); }
#endif
