// C17: weights kept in a separate set (handed over at extraction, at every push, or held by reference) against weights kept inside.
#include "anyset_impl.hpp"
using namespace vf; using namespace any;
typedef accumulator_set<void, stats<tag::sum_of_weights, tag::mean_of_weights, tag::sum_of_weights_kahan>, double> W;
#define ARGS sample = 0., rolling_window_size = c.win, right_tail_cache_size = c.rcache, left_tail_cache_size = c.lcache, density_num_bins = c.bins, density_cache_size = c.dcache
#define ARGS2 p_square_cumulative_distribution_num_cells = c.cells, extended_p_square_probabilities = c.probs, quantile_probability = c.qp, pot_threshold_value = c.thr, pot_threshold_probability = c.tprob
template<class A> static void feed(A &a, Stream const &t, std::size_t i) { std::vector<double> v{t.c1[i], t.c2[i]}; a(t.x[i], weight = t.w[i], covariate1 = t.c1[i], covariate2 = t.c2[i], tail_covs = v); }
template<class A> static void feed_with(A &a, Stream const &t, std::size_t i, W const &w, Rng &r)
{
    std::vector<double> v{t.c1[i], t.c2[i]};
    switch (r.below(3))
    {
    case 0: a(t.x[i], weight = t.w[i], covariate1 = t.c1[i], covariate2 = t.c2[i], tail_covs = v, weights = w); break;
    case 1: a(t.x[i], weights = w, tail_covs = v, covariate2 = t.c2[i], weight = t.w[i], covariate1 = t.c1[i]); break;
    default: a(covariate1 = t.c1[i], weight = t.w[i], tail_covs = v, weights = w, sample = t.x[i], covariate2 = t.c2[i]); break;
    }
}
template<class D, class S, class... A> static Snap get(S const &s, Cfg const &c, std::size_t n, double p, A const &... a)
{
    Snap v; Out o(v); if (n < D::need(c)) return v;
    try { D::get(s, c, o, p, a...); } catch (std::runtime_error const &) { v.clear(); v.push_back(-8.5e77); }
    return v;
}
template<class D> static void run(Rng &r)
{
    std::size_t n = 1 + gen_len(r, 300); Stream t = make_stream(r, n), t2 = make_stream(r, n); t2.w = t.w; Cfg c(r, n); std::string name = D::name();
    std::string base = " " + name + " {" + c.text() + "} " + kind_name(t.kind) + " x=" + str_seq(t.x, 10) + " w=" + str_seq(t.w, 8);
    typedef typename D::F F; typedef typename D::FR FR;
    W w, second; accumulator_set<double, F, double> in(ARGS, ARGS2), in2(ARGS, ARGS2); accumulator_set<double, F, external<double> > given(ARGS, ARGS2), late(ARGS, ARGS2);
    accumulator_set<double, FR, external<double> > ref(ARGS, weights = w, ARGS2), ref2(ARGS, ARGS2, weights = w); std::unique_ptr<accumulator_set<double, FR, external<double> > > cp;
    std::size_t at = 1 + r.below(n); Schedule sc(r, n);
    for (std::size_t i = 0; i < n;)
    {
        w(weight = t.w[i]); feed(in, t, i); feed(in2, t2, i); feed_with(given, t, i, w, r); if constexpr (D::lazy) feed(late, t, i);
        feed(ref, t, i); feed(ref2, t2, i); if (cp) feed(*cp, t, i);
        ++i; if (i == at) cp.reset(new accumulator_set<double, FR, external<double> >(ref));
        if (!sc.at(r, i)) continue;
        second = w; double p = r.chance(.1) ? .5 : .5 + .4999 * r.uni(); std::string wh = " after " + std::to_string(i) + base;
        Snap e = get<D>(in, c, i, p), e2 = get<D>(in2, c, i, p);
        auto same_as = [&](char const *how, Snap const &x, Snap const &y) { check_true(name + ":" + how, equal(x, y), std::string(how) + ": " + diff(x, y) + wh); };
        same_as("weights given at push and extraction", get<D>(given, c, i, p, weights = w), e);
        same_as("another set with the same weights", get<D>(given, c, i, p, weights = second), e);
        if constexpr (D::lazy) same_as("weights given at extraction only", get<D>(late, c, i, p, weights = w), e);
        same_as("weights held by reference", get<D>(ref, c, i, p), e);
        same_as("second set sharing the referenced weights", get<D>(ref2, c, i, p), e2);
        if (cp) same_as("copy of the set holding the reference", get<D>(*cp, c, i, p), e);
        same_as("weights given although held by reference", get<D>(ref, c, i, p, weights = w), e);
        count_event("extraction points");
    }
    sig(hash_str(name)); sig_stream(t.x); sig_stream(t.w); nontrivial(n >= 2); show(base); count_event("statistic " + name);
}
#define EXT(NAME, LAZY, NEED, CODE, ...) \
    struct D_##NAME { typedef stats<__VA_ARGS__> F; typedef stats<__VA_ARGS__, tag::reference<W, tag::weights> > FR; enum { lazy = LAZY }; static char const *name() { return #NAME; } \
        static std::size_t need(Cfg const &c) { (void)c; return NEED; } \
        template<class S, class... A> static void get(S const &s, Cfg const &c, Out const &o, double p, A const &... a) { (void)c; (void)p; CODE; } }; \
    SCENARIO(ext_##NAME, 60) { run<D_##NAME>(r); }
#define QR quantile_probability = p
#define QL quantile_probability = 1 - p
#define C1 double, tag::covariate1
#define VC std::vector<double>, vtag::tail_covs
#if PART == 1
EXT(mean, 1, 1, o(ba::weighted_mean(s, a...)); o(ba::weighted_sum(s, a...)), tag::weighted_mean)
EXT(mean_generic, 1, 1, o(ba::mean(s, a...)); o(ba::sum(s, a...)), tag::mean)
EXT(mean_immediate, 0, 1, o(ba::mean(s, a...)), tag::weighted_mean(immediate))
EXT(weights, 1, 1, o(ba::sum_of_weights(s, a...)); o(ba::weighted_mean(s, a...)); o(ba::mean_of_weights(s, a...)), tag::sum_of_weights, tag::mean_of_weights, tag::weighted_mean)
EXT(sum_kahan, 1, 1, o(ba::sum_kahan(s, a...)), tag::weighted_sum_kahan)
EXT(variance_lazy, 1, 1, o(ba::variance(s, a...)); o(ba::mean(s, a...)), tag::lazy_weighted_variance)
EXT(variance, 0, 1, o(ba::variance(s, a...)); o(ba::mean(s, a...)), tag::weighted_variance)
#elif PART == 2
EXT(moments, 1, 1, o(ba::weighted_moment<2>(s, a...)); o(ba::weighted_moment<3>(s, a...)), tag::weighted_moment<2>, tag::weighted_moment<3>)
EXT(skewness, 1, 1, o(ba::weighted_skewness(s, a...)), tag::weighted_skewness)
EXT(kurtosis, 1, 1, o(ba::weighted_kurtosis(s, a...)); o(ba::mean(s, a...)), tag::weighted_kurtosis)
EXT(covariance, 0, 1, o(ba::weighted_covariance(s, a...)), tag::weighted_covariance<C1>)
EXT(mean_of_variates, 1, 1, o((ba::weighted_mean_of_variates<C1>(s, a...))), tag::weighted_mean_of_variates<C1>)
EXT(density, 1, c.dcache, o.pairs(ba::weighted_density(s, a...)), tag::weighted_density)
EXT(median_density, 1, c.dcache, o(ba::weighted_median(s, a...)), tag::with_density_weighted_median)
#elif PART == 3
EXT(median, 0, 5, o(ba::weighted_median(s, a...)), tag::weighted_median)
EXT(median_dist, 0, c.cells + 1, o(ba::weighted_median(s, a...)), tag::with_p_square_cumulative_distribution_weighted_median)
EXT(psq, 0, 5, o(ba::weighted_p_square_quantile(s, a...)), tag::weighted_p_square_quantile)
EXT(psqd, 0, c.cells + 1, o.pairs(ba::weighted_p_square_cumulative_distribution(s, a...)), tag::weighted_p_square_cumulative_distribution)
EXT(ext, 0, 2 * c.probs.size() + 3, o.range(ba::weighted_extended_p_square(s, a...)), tag::weighted_extended_p_square)
EXT(extq, 0, 2 * c.probs.size() + 3, double q = c.probs.front() + p * (c.probs.back() - c.probs.front()); o(ba::quantile(s, quantile_probability = q, a...)), tag::weighted_extended_p_square_quantile)
#elif PART == 4
EXT(tq_r, 1, 1, o(ba::quantile(s, QR, a...)), tag::weighted_tail_quantile<right>)
EXT(tq_l, 1, 1, o(ba::quantile(s, a..., QL)), tag::weighted_tail_quantile<left>)
EXT(nctm_r, 1, 1, o(ba::non_coherent_tail_mean(s, a..., QR)), tag::non_coherent_weighted_tail_mean<right>)
EXT(nctm_l, 1, 1, o(ba::non_coherent_tail_mean(s, QL, a...)), tag::non_coherent_weighted_tail_mean<left>)
EXT(tvma_r, 1, 1, o.range(ba::tail_variate_means(s, QR, a...)), tag::absolute_weighted_tail_variate_means<right, VC>)
EXT(tvmr_l, 1, 1, o.range(ba::relative_tail_variate_means(s, a..., QL)), tag::relative_weighted_tail_variate_means<left, VC>)
#elif PART == 5
EXT(pot_r, 1, 1, o.fit(ba::peaks_over_threshold(s, a...)), tag::weighted_peaks_over_threshold<right>)
EXT(potp_r, 1, 1, o.fit(ba::peaks_over_threshold(s, a...)), tag::weighted_peaks_over_threshold_prob<right>)
EXT(potp_l, 1, 1, o.fit(ba::peaks_over_threshold(s, a...)), tag::weighted_peaks_over_threshold_prob<left>)
EXT(pottm_r, 1, 1, o(ba::tail_mean(s, QR, a...)), tag::weighted_pot_tail_mean<right>)
EXT(potptm_r, 1, 1, o(ba::tail_mean(s, a..., QR)); o(ba::quantile(s, QR, a...)), tag::weighted_pot_tail_mean_prob<right>)
EXT(potq_l, 1, 1, o(ba::quantile(s, QL, a...)), tag::weighted_pot_quantile<left>)
#endif
