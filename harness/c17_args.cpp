// C17: features computed in another set, references, values, and named arguments in any order.
#include "anyset_impl.hpp"
#include <boost/ref.hpp>
#include <utility>
using namespace vf; using namespace any;
namespace my {
BOOST_PARAMETER_KEYWORD(tag, other) BOOST_PARAMETER_KEYWORD(tag, other2) BOOST_PARAMETER_KEYWORD(tag, val) BOOST_PARAMETER_KEYWORD(tag, val2) BOOST_PARAMETER_KEYWORD(tag, obj) BOOST_PARAMETER_KEYWORD(tag, obj2)
BOOST_PARAMETER_KEYWORD(tag, a0) BOOST_PARAMETER_KEYWORD(tag, a1) BOOST_PARAMETER_KEYWORD(tag, a2) BOOST_PARAMETER_KEYWORD(tag, a3) BOOST_PARAMETER_KEYWORD(tag, a4) BOOST_PARAMETER_KEYWORD(tag, a5)
BOOST_PARAMETER_KEYWORD(tag, a6) BOOST_PARAMETER_KEYWORD(tag, a7) BOOST_PARAMETER_KEYWORD(tag, a8)
}
static std::vector<double> ints(Rng &r, std::size_t n, int kind) { std::vector<double> v = gen(r, n, kind); for (double &x : v) x = std::floor(x * 10); return v; }

#if PART == 1
// ------------------------------------------------------------------ a feature that another set computes
template<class S, class... Feats> struct sets
{
    typedef accumulator_set<S, stats<Feats...> > own;
};
// WANT: features of the set; EXT: feature computed elsewhere; the three ways of reaching it
#define EXTF(NAME, SAMPLE, EXT, CODE, ...) \
    SCENARIO(feature_##NAME, 120) \
    { \
        std::size_t n = 1 + gen_len(r, 200); int kind = (int)r.below(NKINDS); std::vector<double> x = ints(r, n, kind), y = gen(r, n, (int)r.below(NKINDS)); Cfg c(r, n); \
        typedef accumulator_set<SAMPLE, stats<EXT> > O; O other(my::other = 1, right_tail_cache_size = c.rcache, rolling_window_size = c.win), twin(right_tail_cache_size = c.rcache, rolling_window_size = c.win); \
        typedef accumulator_set<SAMPLE, stats<__VA_ARGS__, tag::external<EXT, my::tag::other, O> > > ByRef3; typedef accumulator_set<SAMPLE, stats<tag::reference<O, my::tag::other>, __VA_ARGS__, tag::external<EXT, my::tag::other> > > ByRef; \
        accumulator_set<SAMPLE, stats<__VA_ARGS__> > in(right_tail_cache_size = c.rcache, rolling_window_size = c.win); accumulator_set<SAMPLE, stats<__VA_ARGS__, tag::external<EXT, my::tag::other> > > byarg(right_tail_cache_size = c.rcache, rolling_window_size = c.win), first(rolling_window_size = c.win, right_tail_cache_size = c.rcache); \
        ByRef byref(right_tail_cache_size = c.rcache, my::other = other, rolling_window_size = c.win); ByRef3 byref3(my::other = other, right_tail_cache_size = c.rcache, rolling_window_size = c.win); std::unique_ptr<ByRef> cp; \
        std::size_t at = 1 + r.below(n); Schedule sc(r, n); std::string base = " x=" + str_seq(x, 10) + " {" + c.text() + "}"; \
        auto look = [&](auto const &s, double p, auto const &... a) { Snap v; Out o(v); (void)p; try { CODE; } catch (std::runtime_error const &) { v.clear(); v.push_back(-8.5e77); } return v; }; \
        for (std::size_t i = 0; i < n;) \
        { \
            SAMPLE q = (SAMPLE)x[i]; in(q, covariate1 = y[i]); other(q, covariate1 = y[i]); byarg(q, covariate1 = y[i]); byref(q, covariate1 = y[i]); byref3(q, covariate1 = y[i]); if (cp) (*cp)(q, covariate1 = y[i]); \
            ++i; if (i == at) cp.reset(new ByRef(byref)); if (!sc.at(r, i)) continue; \
            twin = other; double p = .5 + .49 * r.uni(); Snap e = look(in, p); std::string wh = " after " + std::to_string(i) + base; \
            auto same_as = [&](char const *how, Snap const &v) { check_true(std::string(#NAME) + ":" + how, equal(v, e), std::string(how) + ": " + diff(v, e) + wh); }; \
            same_as("passed at extraction", look(byarg, p, my::other = other)); same_as("equal set passed at extraction", look(byarg, p, my::other = twin)); same_as("held by reference", look(byref, p)); \
            same_as("held by reference, short form", look(byref3, p)); same_as("passed although a reference is held", look(byref, p, my::other = twin)); if (cp) same_as("copy holding the reference", look(*cp, p)); \
            count_event("extraction points"); \
        } \
        sig(hash_str(#NAME)); sig_stream(x); nontrivial(n >= 2); show(base); \
    }
EXTF(sum_for_mean, double, tag::sum, o(ba::mean(s, a...)); o(ba::sum(s, a...)); o(ba::count(s, a...)), tag::mean)
EXTF(sum_for_mean_int, int, tag::sum, o(ba::mean(s, a...)); o(ba::sum(s, a...)); o(ba::count(s)), tag::mean)
EXTF(count_for_mean, double, tag::count, o(ba::mean(s, a...)); o(ba::sum(s, a...)); o(ba::count(s, a...)), tag::mean)
EXTF(mean_for_variance, double, tag::mean, o(ba::variance(s, a...)); o(ba::mean(s, a...)), tag::lazy_variance)
EXTF(moment_for_variance, double, tag::moment<2>, o(ba::variance(s, a...)); o(ba::moment<2>(s, a...)), tag::lazy_variance)
EXTF(moment_for_kurtosis, double, tag::moment<3>, o(ba::kurtosis(s, a...)); o(ba::skewness(s, a...)), tag::kurtosis, tag::skewness)
EXTF(variate_sum, double, tag::sum_of_variates<double BOOST_PP_COMMA() tag::covariate1>, o((ba::mean_of_variates<double, tag::covariate1>(s, a...))), tag::mean_of_variates<double, tag::covariate1>)
EXTF(rolling_window_sum, double, tag::rolling_sum, o(ba::rolling_mean(s, a...)), tag::lazy_rolling_mean)
EXTF(min_max, double, tag::min, o((ba::min)(s, a...)); o((ba::max)(s, a...)), tag::min, tag::max)
EXTF(tail_cache, double, tag::tail<right>, o(ba::quantile(s, quantile_probability = p, a...)); o.range(ba::tail(s, a...)), tag::tail_quantile<right>)

// two features of one set, each elsewhere
SCENARIO(two_elsewhere, 120)
{
    std::size_t n = 1 + gen_len(r, 200); std::vector<double> x = ints(r, n, (int)r.below(NKINDS)); typedef accumulator_set<double, stats<tag::sum> > A; typedef accumulator_set<double, stats<tag::count, tag::min> > B;
    A a; B b; accumulator_set<double, stats<tag::mean> > in; accumulator_set<double, stats<tag::mean, tag::external<tag::sum, my::tag::other>, tag::external<tag::count, my::tag::other2> > > s; Schedule sc(r, n);
    accumulator_set<double, stats<tag::mean, tag::external<tag::sum, my::tag::other, A>, tag::external<tag::count, my::tag::other2, B> > > t(my::other2 = b, my::other = a);
    accumulator_set<double, stats<tag::mean, tag::external<tag::sum, my::tag::other>, tag::external<tag::count, my::tag::other2, B> > > u(my::other2 = b);
    for (std::size_t i = 0; i < n;)
    {
        a(x[i]); b(x[i]); in(x[i]); s(x[i]); t(x[i]); u(x[i]); ++i; if (!sc.at(r, i)) continue; std::string wh = "after " + std::to_string(i) + " " + str_seq(x, 10);
        check_eq("two:arguments", mean(s, my::other = a, my::other2 = b), mean(in), wh); check_eq("two:arguments swapped", mean(s, my::other2 = b, my::other = a), mean(in), wh);
        check_eq("two:references", mean(t), mean(in), wh); check_eq("two:one of each", mean(u, my::other = a), mean(in), wh); check_eq("two:count", count(t), i, wh); check_eq("two:sum", sum(u, my::other = a), sum(in), wh);
    }
    sig_stream(x); nontrivial(n >= 2);
}
#elif PART == 2
// ------------------------------------------------------------------ references and values
struct Big { std::vector<double> v; int id; bool operator==(Big const &o) const { return id == o.id && v == o.v; } };
inline std::ostream &operator<<(std::ostream &o, Big const &b) { return o << "Big#" << b.id << str_seq(b.v); }
SCENARIO(references, 300)
{
    double target = r.normal(); Big big; big.id = (int)r.below(1000); big.v = gen(r, r.below(6), NORMAL); int const fixed = (int)r.below(100); std::vector<double> x;
    typedef accumulator_set<int, stats<tag::reference<double, my::tag::obj>, tag::mean, tag::reference<Big, my::tag::obj2>, tag::reference<int const, my::tag::val2> > > S;
    S s(my::obj = target, my::obj2 = big, my::val2 = fixed), other(my::val2 = fixed, my::obj2 = boost::ref(big), my::obj = boost::ref(target)); std::unique_ptr<S> cp;
    std::size_t steps = 3 + r.below(25);
    for (std::size_t i = 0; i < steps; ++i)
    {
        switch (r.below(6))
        {
        case 0: target = r.normal(); break;
        case 1: big.id++; big.v.push_back(target); break;
        case 2: reference_tag<my::tag::obj>(s) = r.normal(); break;                                          // a reference can be written through
        case 3: (ba::reference<Big, my::tag::obj2>(s)).id = (int)r.below(1000); break;
        case 4: { int q = (int)r.below(50); s(q); other(q); if (cp) (*cp)(q); x.push_back(q); break; }
        default: cp.reset(new S(r.chance(.5) ? s : other)); if (r.chance(.3)) { S tmp(s); s = other; s = tmp; } break;
        }
        for (S *p : {&s, &other, cp.get()})
        {
            if (!p) continue;
            check_true("reference:object", &reference_tag<my::tag::obj>(*p) == &target && &(ba::reference<double, my::tag::obj>(*p)) == &target, "not the object given at construction"); check_eq("reference:value", reference_tag<my::tag::obj>(*p), target);
            check_true("reference:object2", &reference_tag<my::tag::obj2>(*p) == &big && &(extract_result<tag::reference<Big, my::tag::obj2> >(*p)) == &big, "not the object given at construction"); check_eq("reference:value2", reference_tag<my::tag::obj2>(*p), big);
            check_true("reference:const", &(ba::reference<int const, my::tag::val2>(*p)) == &fixed, "not the object given at construction");
        }
        check_eq("reference:count", count(s), x.size()); if (!x.empty()) check_eq("reference:mean", mean(s), mean(other));
    }
    sig(target); sig((std::uint64_t)x.size()); nontrivial(); count_event("reference histories");
}
SCENARIO(values, 300)
{
    double a = r.normal(); int b = (int)r.below(1000); Big big; big.id = (int)r.below(1000); big.v = gen(r, r.below(6), NORMAL); double a0 = a; int b0 = b; Big big0 = big;
    typedef accumulator_set<double, stats<tag::value<double, my::tag::val>, tag::value<int, my::tag::val2>, tag::mean, tag::value<Big, my::tag::obj> > > S;
    S s(my::val = a, my::val2 = b, my::obj = big), t(my::obj = Big(big), my::val2 = b + 0, my::val = a + 0.0); S moved(my::val2 = b, my::obj = big, my::val = a); std::unique_ptr<S> cp; double n = 0, sum = 0;
    S different(my::val = a + 1, my::val2 = b + 1, my::obj = Big());
    for (std::size_t i = 0, steps = 3 + r.below(25); i < steps; ++i)
    {
        switch (r.below(5))
        {
        case 0: a = r.normal(); break; case 1: b = (int)r.below(1000); break; case 2: big.id++; big.v.assign(3, a); break;
        case 3: { double q = (double)r.below(50); s(q); t(q); ++n; sum += q; break; }
        default: cp.reset(new S(s)); if (r.chance(.4)) { different = *cp; cp.reset(new S(different)); } break;
        }
        for (S *p : {&s, &t, &moved, cp.get()})
        {
            if (!p) continue;
            check_eq("value:double", value_tag<my::tag::val>(*p), a0); check_eq("value:double2", (value<double, my::tag::val>(*p)), a0); check_eq("value:int", (value<int, my::tag::val2>(*p)), b0);
            check_eq("value:int2", extract_result<tag::value_tag<my::tag::val2> >(*p), b0); check_eq("value:object", value_tag<my::tag::obj>(*p), big0);
        }
        if (n > 0) { check_near("value:mean", mean(s), sum / n, 1e-9); check_eq("value:count", count(t), (std::size_t)n); }
    }
    sig(a0); sig((std::uint64_t)b0); sig(n); nontrivial(); count_event("value histories");
}
// a value used by an accumulator that depends on it: the weights of a mean supplied from outside
namespace use {
struct scaled_impl : accumulator_base
{
    typedef double result_type;
    template<class Args> scaled_impl(Args const &args) : built(ba::value_tag<my::tag::val>(args) + ba::reference_tag<my::tag::obj>(args)), total(0) {}
    template<class Args> void operator()(Args const &args) { total += args[sample] * ba::value_tag<my::tag::val>(args) + ba::reference_tag<my::tag::obj>(args); }
    template<class Args> double result(Args const &args) const { return built + total + ba::reference_tag<my::tag::obj>(args) * ba::value_tag<my::tag::val>(args); }
    double built, total;
};
namespace tag { struct scaled : depends_on<ba::tag::value<double, my::tag::val>, ba::tag::reference<double, my::tag::obj> > { typedef boost::mpl::always<scaled_impl> impl; }; }
}
SCENARIO(dependents, 300)
{
    double val = (double)r.below(9), obj = (double)r.below(9), v0 = val, expect = val + obj; accumulator_set<double, stats<use::tag::scaled> > s(my::obj = obj, my::val = val);
    std::unique_ptr<accumulator_set<double, stats<use::tag::scaled> > > cp; double cpe = 0;
    for (std::size_t i = 0, n = 1 + r.below(30); i < n; ++i)
    {
        if (r.chance(.3)) obj = (double)r.below(9); if (r.chance(.3)) val = (double)r.below(9); double q = (double)r.below(20);
        s(q); expect += q * v0 + obj; if (cp) { (*cp)(q + 1); cpe += (q + 1) * v0 + obj; } if (r.chance(.2)) { cp.reset(new accumulator_set<double, stats<use::tag::scaled> >(s)); cpe = expect; }
        check_eq("dependents:result", extract_result<use::tag::scaled>(s), expect + obj * v0, "a statistic using a value and a reference"); if (cp) check_eq("dependents:copy", extract_result<use::tag::scaled>(*cp), cpe + obj * v0);
    }
    sig(expect); nontrivial();
}
#elif PART == 3
// ------------------------------------------------------------------ named arguments
// a probe that records every named argument at construction, push and extraction
struct Seen { double v[9]; double s, w; bool operator==(Seen const &o) const { for (int i = 0; i < 9; ++i) if (v[i] != o.v[i]) return false; return s == o.s && w == o.w; } };
inline std::ostream &operator<<(std::ostream &o, Seen const &s) { o << "["; for (double d : s.v) o << d << ' '; return o << "| sample " << s.s << " weight " << s.w << "]"; }
enum { NONE = -1 };
namespace pr {
template<class Args> Seen look(Args const &args)
{
    Seen s; double none = NONE;
    s.v[0] = args[my::a0 | none]; s.v[1] = args[my::a1 | none]; s.v[2] = args[my::a2 | none]; s.v[3] = args[my::a3 | none]; s.v[4] = args[my::a4 | none]; s.v[5] = args[my::a5 | none]; s.v[6] = args[my::a6 | none];
    s.v[7] = args[my::a7 | none]; s.v[8] = args[my::a8 | none]; s.s = args[sample | none]; s.w = args[weight | none]; return s;
}
struct result { Seen built, pushed, extracted; void const *self_built, *self_pushed, *self_extracted; };
template<int N> struct impl : accumulator_base
{
    typedef pr::result result_type;
    template<class Args> impl(Args const &args) { d.built = look(args); d.pushed = d.built; d.self_built = &args[accumulator]; d.self_pushed = 0; }
    template<class Args> void operator()(Args const &args) { d.pushed = look(args); d.self_pushed = &args[accumulator]; }
    template<class Args> pr::result result(Args const &args) const { pr::result x = d; x.extracted = look(args); x.self_extracted = &args[accumulator]; return x; }
    pr::result d;
};
namespace tag { template<int N> struct probe : depends_on<> { typedef boost::mpl::always<impl<N> > impl; }; struct last : depends_on<probe<1>, ba::tag::count> { typedef boost::mpl::always<pr::impl<9> > impl; }; }
}
typedef accumulator_set<double, stats<pr::tag::probe<0>, pr::tag::last>, double> PS;
template<int I> struct key;
#define KEY(I) template<> struct key<I> { static auto make(double const &d) { return my::a##I = d; } };
KEY(0) KEY(1) KEY(2) KEY(3) KEY(4) KEY(5) KEY(6) KEY(7) KEY(8)
#undef KEY
template<> struct key<9> { static auto make(double const &d) { return sample = d; } };
template<> struct key<10> { static auto make(double const &d) { return weight = d; } };
static Seen expect(std::vector<int> const &ks, std::vector<double> const &v)
{
    Seen s; for (double &d : s.v) d = NONE; s.s = s.w = NONE;
    for (int k : ks) { if (k < 9) s.v[k] = v[k]; else if (k == 9) s.s = v[9]; else s.w = v[10]; }
    return s;
}
static void judge(char const *what, PS const &s, Seen const &b, Seen const &p, bool pushed, Seen const &e, pr::result const &g)
{
    check_eq(std::string(what) + ":construction", g.built, b); if (pushed) { check_eq(std::string(what) + ":push", g.pushed, p); check_true(std::string(what) + ":push set", g.self_pushed == &s, "accumulator argument is not the set"); }
    check_eq(std::string(what) + ":extraction", g.extracted, e); check_true(std::string(what) + ":set", g.self_built == &s && g.self_extracted == &s, "accumulator argument is not the set");
}
// one compile-time order of arguments, used for construction, push and extraction
template<bool POS, int... I> static void order(Rng &r)
{
    std::vector<int> ks{I...}; std::vector<double> v; for (int i = 0; i < 11; ++i) v.push_back((double)r.below(100000)); Seen want = expect(ks, v), none = expect({}, v);
    PS named(key<I>::make(v[I])...), plain; judge("ctor", named, want, none, false, none, extract_result<pr::tag::probe<0> >(named));
    for (int round = 0; round < 3; ++round)
    {
        for (double &d : v) d = (double)r.below(100000); Seen p = expect(ks, v);
        if constexpr (POS) { double s0 = (double)r.below(1000); p.s = s0; named(s0, key<I>::make(v[I])...); plain(s0, key<I>::make(v[I])...); }
        else { named(key<I>::make(v[I])...); plain(key<I>::make(v[I])...); }
        std::vector<double> u = v; for (double &d : u) d += .5; Seen e = expect(ks, u);
        judge("first", named, want, p, true, e, extract_result<pr::tag::probe<0> >(named, key<I>::make(u[I])...)); judge("last", named, want, p, true, e, extract_result<pr::tag::last>(named, key<I>::make(u[I])...));
        judge("dependency", plain, none, p, true, e, extract_result<pr::tag::probe<1> >(plain, key<I>::make(u[I])...)); judge("bare", plain, none, p, true, none, extract_result<pr::tag::last>(plain));
        extractor<pr::tag::last> const ex = {}; judge("extractor", named, want, p, true, e, ex(named, key<I>::make(u[I])...));
        check_eq("count", count(named), (std::size_t)round + 1);
    }
    sig((std::uint64_t)v[0]); for (int k : ks) sig((std::uint64_t)k); nontrivial(); count_event("argument orders run");
}
SCENARIO(orders, 150)
{
    switch (ctx().kase % 16)
    {
    case 0: order<false, 0>(r); break; case 1: order<false, 1, 0>(r); break; case 2: order<true, 10, 3>(r); break; case 3: order<true, 2, 0, 1>(r); break;
    case 4: order<false, 9, 0, 1, 10>(r); break; case 5: order<false, 10, 3, 9, 0>(r); break; case 6: order<true, 5, 4, 3, 2, 10>(r); break; case 7: order<true, 8, 7, 6, 5, 4, 3>(r); break;
    case 8: order<false, 8, 0, 7, 1, 6, 2, 9>(r); break; case 9: order<true, 0, 1, 2, 3, 4, 5, 6, 7>(r); break; case 10: order<true, 0, 1, 2, 3, 4, 5, 6, 7, 8>(r); break; case 11: order<true, 10, 8, 7, 6, 5, 4, 3, 2, 1, 0>(r); break;
    case 12: order<false, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>(r); break; case 13: order<false, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0>(r); break; case 14: order<false, 4, 10, 2, 8, 0, 6, 1, 9, 5, 7, 3>(r); break; default: order<true, 3, 10, 1>(r);
    }
}
// the library's own accumulators: construction, push and extraction arguments in every order
SCENARIO(library_orders, 200)
{
    std::size_t n = 1 + gen_len(r, 150); Stream t = make_stream(r, n); Cfg c(r, n);
    typedef accumulator_set<double, stats<tag::weighted_tail_quantile<right>, tag::weighted_covariance<double, tag::covariate1>, tag::tail_variate<double, tag::covariate2, right>, tag::weighted_density, tag::weighted_p_square_quantile, tag::weighted_extended_p_square, tag::tail_weights<right> >, double> S;
    S a(right_tail_cache_size = c.rcache, left_tail_cache_size = c.lcache, density_cache_size = c.dcache, density_num_bins = c.bins, quantile_probability = c.qp, extended_p_square_probabilities = c.probs);
    S b(extended_p_square_probabilities = c.probs, quantile_probability = c.qp, density_num_bins = c.bins, density_cache_size = c.dcache, left_tail_cache_size = c.lcache, right_tail_cache_size = c.rcache);
    S d(density_num_bins = c.bins, right_tail_cache_size = std::size_t(c.rcache), sample = 0., extended_p_square_probabilities = c.probs, density_cache_size = std::size_t(c.dcache), quantile_probability = double(c.qp), left_tail_cache_size = c.lcache);
    S f(tag::tail<right>::cache_size = c.rcache, tag::tail<left>::cache_size = c.lcache, tag::weighted_density::num_bins = c.bins, tag::weighted_density::cache_size = c.dcache, quantile_probability = c.qp, tag::weighted_extended_p_square::probabilities = c.probs);
    Schedule sc(r, n);
    for (std::size_t i = 0; i < n;)
    {
        double x = t.x[i], w = t.w[i], c1 = t.c1[i], c2 = t.c2[i]; a(x, weight = w, covariate1 = c1, covariate2 = c2); b(x, covariate2 = c2, covariate1 = c1, weight = w);
        d(covariate1 = c1 + 0., sample = x + 0., covariate2 = double(c2), weight = double(w)); f(weight = w, covariate2 = c2, sample = x, covariate1 = c1); ++i; if (!sc.at(r, i)) continue;
        double p = .5 + .49 * r.uni();
        auto look = [&](S const &s, int how)
        {
            Snap v; Out o(v); o(how == 0 ? quantile(s, quantile_probability = p) : how == 1 ? quantile(s, weight = 1., quantile_probability = p) : how == 2 ? quantile(s, quantile_probability = double(p), sample = 3.) : quantile(s, covariate1 = 1., quantile_probability = p, weight = 9.));
            o(weighted_covariance(s)); o.range(tail_variate(s)); if (i >= c.dcache) o.pairs(weighted_density(s)); if (i >= 5) o(weighted_p_square_quantile(s)); if (i >= 2 * c.probs.size() + 3) o.range(weighted_extended_p_square(s));
            o.range(tail(s)); o.range(tail_weights(s)); o(count(s)); o(sum_of_weights(s)); return v;
        };
        Snap e = look(a, 0); std::string wh = " after " + std::to_string(i) + " {" + c.text() + "} x=" + str_seq(t.x, 10); int h = (int)r.below(4);
        check_true("library:reversed", equal(look(b, h), e), diff(look(b, h), e) + wh); check_true("library:temporaries", equal(look(d, (h + 1) % 4), e), diff(look(d, (h + 1) % 4), e) + wh); check_true("library:feature keywords", equal(look(f, (h + 2) % 4), e), diff(look(f, (h + 2) % 4), e) + wh);
        check_true("library:extra extraction arguments", equal(look(a, 3), e), diff(look(a, 3), e) + wh);
    }
    sig_stream(t.x); nontrivial(n >= 2); show(c.text());
}
#endif
